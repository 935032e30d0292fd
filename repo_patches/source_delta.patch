From b14f052e811de054ab8263237e6758f81297c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 01/51] fix: fill the O matrix for every surface of the model
 it belongs to

---
 pibronic/pimc/pimc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 5873719..003dc48 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -1107,10 +1107,12 @@ def build_o_matrix(data, model, state_shift):
 
     np.exp(o_matrix, out=o_matrix)
 
-    for a in range(data.states):
+    # the sampling model can have a different number of surfaces than the vibronic model
+    temp_states = model.omatrix.shape[2]
+
+    for a in range(temp_states):
         model.omatrix[:, :, a, a] = o_matrix[:, :, a]
 
-    temp_states = model.omatrix.shape[2]
     # asserts that the tensor is diagonal along axis (2,3)
     for a, b in it.product(range(temp_states), range(temp_states)):
         if a == b:
-- 
2.43.0


From 07ee74b78ba97bbe2893b5444d4fde29344ef1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:05 +0000
Subject: [PATCH 02/51] fix: evaluate the coupling propagator at the shifted
 inverse temperature in plus/minus calculations

---
 pibronic/pimc/pimc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 003dc48..4c0d40f 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -59,6 +59,8 @@ np.random.seed()  # random
 class TemperatureDependentClass:
     """store temperature dependent constants here"""
     def __init__(self, model, tau):
+        self.tau = tau
+
         # construct the coth and csch tensors
         omega = np.broadcast_to(model.omega, model.size['AN'])
         self.cothAN = np.tanh(hbar*tau*omega)**(-1.)
@@ -1182,7 +1184,7 @@ def build_numerator(data, vib, outputArray, idx):
     # build the M matrix
     np.einsum('abcd, abd, abed->abce',
               data.coupling_eigvects,
-              np.exp(-data.tau*data.coupling_eigvals),  # replace this part to salis
+              np.exp(-vib.tau*data.coupling_eigvals),  # replace this part to salis
               data.coupling_eigvects,
               out=data.M_matrix,
               optimize='optimal'
-- 
2.43.0


From 2279c2511356042f082f4230289485b574a0cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:08 +0000
Subject: [PATCH 03/51] fix: derive the stored shifted inverse temperatures
 from the current temperature

---
 pibronic/pimc/pimc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 4c0d40f..9b82465 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -729,6 +729,9 @@ class BoxDataPM(BoxData):
 
     def preprocess(self):
         """"""
+        # the shifted values depend on the current temperature and bead number
+        self.beta = constants.beta(self.temperature)
+
         # compute extra constants
         self.beta_plus = self.beta + self.delta_beta
         self.beta_minus = self.beta - self.delta_beta
-- 
2.43.0


From 3008de76828149aeb29e5d5ec1b60298d11015b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:54 +0000
Subject: [PATCH 04/51] fix: training data weights displaced the paths twice

---
 pibronic/pimc/pimc.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 9b82465..24af37d 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -603,13 +603,11 @@ class BoxData:
 
     def generate_random_R_values(self, result, storage_array, sample_view):
         """Randomly generates R values that have no relation to the distribution rho or g
-        they only have the correct dimensions BANP and are shifted appropriately """
+        they only have the correct dimensions BNP, the R values of each sample are the same for all surfaces """
         # generate sample points in dimensionless co-ordinates R
         storage_array[sample_view, :, :] = np.random.random(size=self.rho.size['BNP'])
+        # build_o_matrix() takes care of the surface dependent displacement q = R - d
         np.copyto(self.qTensor, storage_array[sample_view, NEW, ...])
-
-        # we transform the dimensionless co-ordinates to surface dependent co-ordinates q = R - d
-        self.qTensor -= self.vib.state_shift[NEW, :, :, NEW]
         return
 
     def transform_sampled_coordinates(self, sample_view):
@@ -1297,9 +1295,9 @@ def block_compute_rhoR_from_input_samples(data, result, input_R_values):
         sample_view = slice(start, end)
 
         # we copy in the data values that we read in from load_R_samples
+        # build_o_matrix() takes care of the surface dependent displacement q = R - d
         data.qTensor[:] = input_R_view[sample_view, NEW, ...]
-        # we transform the dimensionless co-ordinates to surface dependent co-ordinates q = R - d
-        data.qTensor -= data.vib.state_shift[NEW, :, :, NEW]
+        data.qTempTensor[:] = input_R_view[sample_view, NEW, ...]
 
         # build O matrices for system distribution
         build_o_matrix(data, rho.const, rho.state_shift)
-- 
2.43.0


From 7e4a07593118a90ddad3d5a9c19759ef0706b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 05/51] fix: compare the number of samples by value when
 loading a result file

---
 pibronic/pimc/pimc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 24af37d..b36986c 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -843,9 +843,9 @@ class BoxResult:
             self.__class__.verify_result_keys_are_present(path, data)
             # TODO - check hashes here? - or do we assume they've already been checked?
             # BoxResult.verify_hashes_are_valid()
-            if self.samples is 0:
-                self.samples = data["number_of_samples"]
-            elif data["number_of_samples"] is not self.samples:
+            if self.samples == 0:
+                self.samples = int(data["number_of_samples"])
+            elif data["number_of_samples"] != self.samples:
                 raise AssertionError("BoxResult has a different number of samples that the input file - this should not happen")
 
             self.initialize_arrays()
-- 
2.43.0


From 2d191dd84dd8d008f2f954c5ac847b2e266fbe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:19 +0000
Subject: [PATCH 06/51] fix: aggregate result files without overrunning the
 requested number of samples

---
 pibronic/pimc/pimc.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index b36986c..50ba0ba 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -860,6 +860,8 @@ class BoxResult:
         number_of_samples = 0
         assert not len(list_of_paths) == 0, "list_of_paths cannot be empty"
 
+        # each file contributes once
+        list_of_paths = list(dict.fromkeys(list_of_paths))
         list_of_bad_paths = []
 
         for path in list_of_paths:
@@ -884,7 +886,7 @@ class BoxResult:
         assert not set(list_of_paths) == set()
 
         # okay now remove all the bad paths!
-        list_of_paths = list(set(list_of_paths) - set(list_of_bad_paths))
+        list_of_paths = [path for path in list_of_paths if path not in list_of_bad_paths]
 
         assert len(list_of_paths) > 0, "none of the provided paths were good, i.e. none of them had all the required keys {}".format(self.key_list)
 
@@ -907,7 +909,8 @@ class BoxResult:
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
-                length = min(data["number_of_samples"], desired_number_of_samples)
+                # never load more than what is still missing
+                length = min(int(data["number_of_samples"]), desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
                 self.scaled_rho[start:start+length] = data["s_rho"][0:length]
@@ -982,6 +985,8 @@ class BoxResultPM(BoxResult):
         number_of_samples = 0
         assert not len(list_of_paths) == 0, "list_of_paths cannot be empty"
 
+        # each file contributes once
+        list_of_paths = list(dict.fromkeys(list_of_paths))
         list_of_bad_paths = []
 
         try:
@@ -1010,7 +1015,7 @@ class BoxResultPM(BoxResult):
         assert not set(list_of_paths) == set()
 
         # okay now remove all the bad paths!
-        list_of_paths = list(set(list_of_paths) - set(list_of_bad_paths))
+        list_of_paths = [path for path in list_of_paths if path not in list_of_bad_paths]
 
         assert len(list_of_paths) > 0, "none of the provided paths were good, i.e. none of them had all the required keys {}".format(self.key_list)
 
@@ -1033,7 +1038,8 @@ class BoxResultPM(BoxResult):
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
-                length = min(data["number_of_samples"], desired_number_of_samples)
+                # never load more than what is still missing
+                length = min(int(data["number_of_samples"]), desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
                 self.scaled_rho[start:start+length] = data["s_rho"][0:length]
-- 
2.43.0


From 9cbcd3b27d847b5786eaf5a4af452f246840ac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:25 +0000
Subject: [PATCH 07/51] fix: load the shipped sequences with a single character
 delimiter

---
 pibronic/vibronic/orthonormal/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index c54daea..9cb1338 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -114,7 +114,7 @@ def path_to_sequence_file(order):
     return path
 
 
-def load_sequence(order, delimiter=", "):
+def load_sequence(order, delimiter=","):
     """ returns a list of [y, x] pairs (which are length 2 lists)
     throws an assert error if the file does not exist
     takes a integer parameter which specifies which file to load"""
-- 
2.43.0


From 3d333ec4f0b7dac27a2431492a57a3c7039daece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:26 +0000
Subject: [PATCH 08/51] fix: load diagonal models which have no energies

---
 pibronic/vibronic/vibronic_model_io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index 22fe2c1..42e9223 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -572,8 +572,10 @@ def _load_inplace_from_JSON(path, dictionary):
     return
 
 
-def _load_from_JSON(path):
-    """returns a dictionary filled with the values stored in the .json file located at path"""
+def _load_from_JSON(path, shape_dict=model_shape_dict):
+    """returns a dictionary filled with the values stored in the .json file located at path
+    shape_dict is the function which provides the shapes of the arrays of the model (coupled or diagonal)
+    """
 
     with open(path, mode='r', encoding='UTF8') as file:
         input_dictionary = json.loads(file.read())
@@ -588,7 +590,7 @@ def _load_from_JSON(path):
     # special case to always create an array of energies that are 0.0 if not provided in the .json file
     if VMK.E not in input_dictionary:
         A, N = _extract_dimensions_from_dictionary(input_dictionary)
-        shape = model_shape_dict(A, N)
+        shape = shape_dict(A, N)
         input_dictionary[VMK.E] = np.zeros(shape[VMK.E], dtype=F64)
 
     # TODO - design decision about which arrays to fill with zeros by default?
@@ -633,7 +635,7 @@ def load_diagonal_model_from_JSON(path, dictionary=None):
 
     # no arrays were provided so return newly created arrays after filling them with the appropriate values
     if not bool(dictionary):
-        new_model_dict = _load_from_JSON(path)
+        new_model_dict = _load_from_JSON(path, diagonal_model_shape_dict)
 
         # TODO - we might want to make sure that none of the values in the dictionary have all zero values or are None
 
-- 
2.43.0


From b8e7e638132de91cdbe6430e91023d3b7902a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:32 +0000
Subject: [PATCH 09/51] fix: load model objects from files that omit couplings

---
 pibronic/pimc/pimc.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 50ba0ba..60654f8 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -113,9 +113,10 @@ class ModelClass:
     @classmethod
     def from_json_file(cls, path):
         """constructor wrapper"""
-        with open(path, mode='r', encoding='UTF8') as target_file:
-            file_data = target_file.read()
-        return cls.load_model(cls, file_data)
+        states, modes = vIO.extract_dimensions_of_model(path=path)
+        model = cls(states, modes)
+        model.load_model(path)
+        return model
 
     def load_model(self, path):
         """x"""
@@ -124,14 +125,11 @@ class ModelClass:
         # lazy way of assuming that if one array is empty this is the first time
         if type(None) in map(type, [self.omega, self.energy, self.linear, self.quadratic]):
             kwargs = vIO.load_model_from_JSON(path)
-            self.energy = kwargs[VMK.E]
-            self.omega = kwargs[VMK.w]
-            self.linear = kwargs[VMK.G1]
-            A = self.states
-            N = self.modes
-            shape = vIO.model_shape_dict(A, N)
-            self.linear = kwargs[VMK.G1] if VMK.G1 in kwargs else np.zeros(shape[VMK.G1], dtype=F64)
-            self.quadratic = kwargs[VMK.G2] if VMK.G2 in kwargs else np.zeros(shape[VMK.G2], dtype=F64)
+            # arrays which are not present in the file have all zero values
+            shape = vIO.model_shape_dict(kwargs[VMK.A], kwargs[VMK.N])
+            for key in [VMK.G1, VMK.G2]:
+                if key not in kwargs:
+                    kwargs[key] = np.zeros(shape[key], dtype=F64)
         else:
             kwargs = {}
             kwargs[VMK.N] = self.modes
-- 
2.43.0


From 3fea26d1fb36e633f97bdec8d006a925fb846cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:28 +0000
Subject: [PATCH 10/51] fix: halve the surface diagonal of the higher order
 couplings of operator files

---
 pibronic/vibronic/model_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/model_op.py b/pibronic/vibronic/model_op.py
index cb01b42..5bdb09a 100755
--- a/pibronic/vibronic/model_op.py
+++ b/pibronic/vibronic/model_op.py
@@ -386,9 +386,9 @@ def read_model_op_file(path_file_op):
     # don't over count the diagonals
     for a in States:
         linear_couplings[:, a, a] /= 2.
-        quadratic_couplings[:, :, a, b] /= 2.
-        cubic_couplings[:, :, :, a, b] /= 2.
-        quartic_couplings[:, :, :, :, a, b] /= 2.
+        quadratic_couplings[:, :, a, a] /= 2.
+        cubic_couplings[:, :, :, a, a] /= 2.
+        quartic_couplings[:, :, :, :, a, a] /= 2.
 
     # check for symmetry in surfaces
     assert np.allclose(excitation_energies, excitation_energies.transpose(1, 0))
-- 
2.43.0


From d5518698802e674beaebe4f5abe984d8f79e2ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:14 +0000
Subject: [PATCH 11/51] fix: build all paths of a FileStructure from the
 absolute root

---
 pibronic/data/file_structure.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index bee2162..000dd34 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -79,14 +79,14 @@ class FileStructure:
         # special
         self.path_es = join(self.path_data, "electronic_structure")
         # sub directories
-        self.path_vib_params = join(path_root, self.template_vib_params.format(id_data))
-        self.path_vib_results = join(path_root, self.template_vib_results.format(id_data))
-        self.path_vib_output = join(path_root, self.template_vib_output.format(id_data))
-        self.path_vib_plots = join(path_root, self.template_vib_plots.format(id_data))
-        self.path_rho_params = join(path_root, self.template_rho_params.format(id_data, id_rho))
-        self.path_rho_results = join(path_root, self.template_rho_results.format(id_data, id_rho))
-        self.path_rho_output = join(path_root, self.template_rho_output.format(id_data, id_rho))
-        self.path_rho_plots = join(path_root, self.template_rho_plots.format(id_data, id_rho))
+        self.path_vib_params = join(self.path_root, self.template_vib_params.format(id_data))
+        self.path_vib_results = join(self.path_root, self.template_vib_results.format(id_data))
+        self.path_vib_output = join(self.path_root, self.template_vib_output.format(id_data))
+        self.path_vib_plots = join(self.path_root, self.template_vib_plots.format(id_data))
+        self.path_rho_params = join(self.path_root, self.template_rho_params.format(id_data, id_rho))
+        self.path_rho_results = join(self.path_root, self.template_rho_results.format(id_data, id_rho))
+        self.path_rho_output = join(self.path_root, self.template_rho_output.format(id_data, id_rho))
+        self.path_rho_plots = join(self.path_root, self.template_rho_plots.format(id_data, id_rho))
 
         # root_suffix = "D{:d}_R{:d}_".format(id_data, id_rho)
         # self.pimc_suffix = root_suffix + "P{P:d}_T{T:.2f}_J*_data_points.npz"
-- 
2.43.0


From 00fb9219fa0f0d8cb02bef05a6d3582f4b82c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:19 +0000
Subject: [PATCH 12/51] fix: check that the directories exist and not their
 attribute names

---
 pibronic/data/file_structure.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index 000dd34..7d585e8 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -139,9 +139,7 @@ class FileStructure:
 
     def directories_exist(self):
         """x"""
-        if False in map(os.path.isdir, self.dir_list):
-            return False
-        return True
+        return all(os.path.isdir(getattr(self, directory)) for directory in self.dir_list)
 
     def make_directories(self):
         """x"""
-- 
2.43.0


From b933190473c6737f101c6463a9ae3fb08408cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 13/51] fix: update the id, directory and hash when changing
 the sampling model

---
 pibronic/data/file_structure.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index 7d585e8..482efba 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -173,7 +173,9 @@ class FileStructure:
         calls make_rho_directories() to ensure the directories exist
         """
         self.make_rho_directories(id_rho)
+        self.id_rho = id_rho
         # update all the rho paths
+        self.path_rho = join(self.path_root, self.template_rho.format(self.id_data, id_rho))
         self.path_rho_params = join(self.path_root,
                                     self.template_rho_params.format(self.id_data, id_rho))
         self.path_rho_results = join(self.path_root,
@@ -197,6 +199,10 @@ class FileStructure:
         #
         self.path_analytic_rho = join(self.path_rho_params, file_name.analytic_results)
 
+        # the hash of the previous sampling model is no longer valid
+        if self._has_rho_hash():
+            del self.hash_rho
+
         return
 
     def verify_directories_exists(self, id_data, path_root=None):
-- 
2.43.0


From eb7a4c229a9572becb7a497d7f6cddcaffcaf99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:26 +0000
Subject: [PATCH 14/51] fix: extract the parameters from the name of a file and
 not from its directories

---
 pibronic/data/postprocessing.py | 55 +++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 85b53d7..c9d2446 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -84,25 +84,34 @@ def retrive_all_file_paths(FS):
 # will pose problems if the naming scheme for the files is changed
 # it might be good to eventually link them to the file_name module in the future
 
+def _name_of(file_path):
+    """ returns the name of the file, only the name contains parameters, the directories may contain anything """
+    return os.path.basename(file_path)
+
+
 def extract_bead_value_from_trotter_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("trotter_P")[1].split("_B"))
+    return int(_name_of(file_path).split("trotter_P")[1].split("_B")[0])
+
+
+def extract_basis_value_from_trotter_file_path(file_path):
+    """ does what it says, returns an int """
+    return int(_name_of(file_path).split("_B")[1].split(".json")[0])
 
 
 def extract_trotter_paramater_list(list_trotter):
     """ takes a list of file-paths to results from trotter calculations and return a dictionary with integer keys representing possible basis sizes, whose corresponding values are lists of all possible bead values for that given basis size. """
-    tL = map(extract_bead_value_from_trotter_file_path, list_trotter)
-
     trotterDict = collections.defaultdict(list)
-    for path in tL:
-        trotterDict[int(path[1].split(".json")[0])].append(int(path[0]))
+    for path in list_trotter:
+        basis_size = extract_basis_value_from_trotter_file_path(path)
+        trotterDict[basis_size].append(extract_bead_value_from_trotter_file_path(path))
 
     return trotterDict
 
 
 def extract_basis_value_from_sos_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("_B")[1].split(".json")[0])
+    return int(_name_of(file_path).split("_B")[1].split(".json")[0])
 
 
 def extract_sos_basis_paramater_list(list_vib, list_rho):
@@ -117,7 +126,7 @@ def extract_sos_basis_paramater_list(list_vib, list_rho):
 
 def extract_bead_value_from_pimc_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("P")[1].split("_T")[0])
+    return int(_name_of(file_path).split("P")[1].split("_T")[0])
 
 
 def extract_bead_paramater_list(list_pimc):
@@ -130,14 +139,14 @@ def extract_bead_paramater_list(list_pimc):
 
 def extract_temperature_value_from_pimc_file_path(file_path):
     """ does what it says, returns a float"""
-    return float(file_path.split("_T")[1].split("_J")[0])
+    return float(_name_of(file_path).split("_T")[1].split("_J")[0])
 
 
 def extract_temperature_paramater_list(list_pimc):
     """ takes a list of file-paths to results from pimc calculations and return a list of all the unique temperature values (as floats)"""
 
     # this option would be to specifically only select temperatures from thermo files instead of just generally from all output files, it is not clear which is better
-    # tempL = map(lambda path: int(path.split("_T")[1].split("_thermo")[0]), list_pimc)
+    # tempL = map(lambda path: int(_name_of(path).split("_T")[1].split("_thermo")[0]), list_pimc)
     tempL = map(extract_temperature_value_from_pimc_file_path, list_pimc)
     list_temperature = list(set(tempL))  # the use of the set object removes all duplicate elements
     list_temperature.sort()
@@ -146,7 +155,7 @@ def extract_temperature_paramater_list(list_pimc):
 
 def extract_job_value_from_pimc_file_path(file_path):
     """ does what it says, returns an int"""
-    return int(file_path.split("_J")[1].split("_data_")[0])
+    return int(_name_of(file_path).split("_J")[1].split("_data_")[0])
 
 
 def extract_parameter_lists(list_pimc, list_vib, list_rho):
@@ -159,17 +168,17 @@ def extract_parameter_lists(list_pimc, list_vib, list_rho):
 
 def extract_bead_value_from_thermo_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("P")[1].split("_T")[0])
+    return int(_name_of(file_path).split("P")[1].split("_T")[0])
 
 
 def extract_temperature_value_from_thermo_file_path(file_path):
     """ does what it says, returns a float"""
-    return float(file_path.split("_T")[1].split("_X")[0])
+    return float(_name_of(file_path).split("_T")[1].split("_X")[0])
 
 
 def extract_sample_value_from_thermo_file_path(file_path):
     """ does what it says, returns an int"""
-    return int(file_path.split("_X")[1].split("_thermo")[0])
+    return int(_name_of(file_path).split("_X")[1].split("_thermo")[0])
 
 
 def prune_results_using_hashes(FS, list_pimc):
@@ -215,8 +224,8 @@ def extract_pimc_parameters(list_pimc, list_coupled, list_sampling):
     # note that the way these splits are coded will pose problems if the naming scheme for sos is changed in the future
     value_dict = {"pimc_beads": 0, "basis_fxns": 0, "temperatures": 0}
 
-    cL = map(lambda path: int(path.split("_B")[1].split(".json")[0]), list_coupled)
-    sL = map(lambda path: int(path.split("_B")[1].split(".json")[0]), list_sampling)
+    cL = map(lambda path: int(_name_of(path).split("_B")[1].split(".json")[0]), list_coupled)
+    sL = map(lambda path: int(_name_of(path).split("_B")[1].split(".json")[0]), list_sampling)
 
     # parse file paths to find shared #'s' of basis functions
     value_dict["basis_fxns"] = list(set(cL) & set(sL))
@@ -225,20 +234,20 @@ def extract_pimc_parameters(list_pimc, list_coupled, list_sampling):
 
     # parse file paths to find shared temperature values
     # for now we will leave this partially undeveloped
-    tempL = map(lambda path: float(path.split("_T")[1].split("_X")[0]), list_pimc)
+    tempL = map(lambda path: float(_name_of(path).split("_T")[1].split("_X")[0]), list_pimc)
     # need to add thing here that checks temperatures inside sos file
     value_dict["temperatures"] = list(set(tempL))
     value_dict["temperatures"].sort()
     log.debug(value_dict["temperatures"])
 
     # parse file paths to find shared sample values
-    xL = map(lambda path: int(path.split("_X")[1].split("_thermo")[0]), list_pimc)
+    xL = map(lambda path: int(_name_of(path).split("_X")[1].split("_thermo")[0]), list_pimc)
     value_dict["samples"] = list(set(xL))
     value_dict["samples"].sort()
     log.debug(value_dict["samples"])
 
     # parse file paths to find pimc bead values
-    pL = map(lambda path: int(path.split("/P")[1].split("_T")[0]), list_pimc)
+    pL = map(lambda path: int(_name_of(path).split("P")[1].split("_T")[0]), list_pimc)
     value_dict["pimc_beads"] = []
     for p in pL:
         if p not in value_dict["pimc_beads"]:
@@ -257,8 +266,8 @@ def extract_jackknife_parameters(list_pimc, list_coupled, list_sampling):
     # note that the way these splits are coded will pose problems if the naming scheme for sos is changed in the future
     value_dict = {"pimc_beads": 0, "basis_fxns": 0, "temperatures": 0}
 
-    cL = map(lambda path: int(path.split("_B")[1].split(".json")[0]), list_coupled)
-    sL = map(lambda path: int(path.split("_B")[1].split(".json")[0]), list_sampling)
+    cL = map(lambda path: int(_name_of(path).split("_B")[1].split(".json")[0]), list_coupled)
+    sL = map(lambda path: int(_name_of(path).split("_B")[1].split(".json")[0]), list_sampling)
 
     # parse file paths to find shared #'s' of basis functions
     value_dict["basis_fxns"] = list(set(cL) & set(sL))
@@ -267,20 +276,20 @@ def extract_jackknife_parameters(list_pimc, list_coupled, list_sampling):
 
     # parse file paths to find shared temperature values
     # for now we will leave this partially undeveloped
-    tempL = map(lambda path: float(path.split("_T")[1].split("_J")[0]), list_pimc)
+    tempL = map(lambda path: float(_name_of(path).split("_T")[1].split("_J")[0]), list_pimc)
     # need to add thing here that checks temperatures inside sos file
     value_dict["temperatures"] = list(set(tempL))
     value_dict["temperatures"].sort()
     log.debug(value_dict["temperatures"])
 
     # # parse file paths to find shared sample values
-    # xL = map(lambda path: int(path.split("_X")[1].split("_P")[0]), list_pimc)
+    # xL = map(lambda path: int(_name_of(path).split("_X")[1].split("_P")[0]), list_pimc)
     # value_dict["samples"] = list(set(xL))
     # value_dict["samples"].sort()
     # log.debug(value_dict["samples"])
 
     # parse file paths to find pimc bead values
-    pL = map(lambda path: int(path.split("results/P")[1].split("_T")[0]), list_pimc)
+    pL = map(lambda path: int(_name_of(path).split("P")[1].split("_T")[0]), list_pimc)
     value_dict["pimc_beads"] = []
     for p in pL:
         if p not in value_dict["pimc_beads"]:
-- 
2.43.0


From 343b93b685749f5a25319fb77824765a81e9237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 15/51] fix: find result files below directories with special
 characters and honour the basis size

---
 pibronic/data/postprocessing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index c9d2446..3f7b465 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -47,25 +47,25 @@ from ..data import file_name
 
 def retrive_pimc_file_list(FS):
     """return a list of the full path to each pimc file that might be used"""
-    globPath = FS.path_rho_results + file_name.pimc(P="*", T="*", J="*")
+    globPath = glob.escape(FS.path_rho_results) + file_name.pimc(P="*", T="*", J="*")
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_jackknife_file_list(FS):
     """return a list of the full path to each jackknife file that might be used"""
-    globPath = FS.path_rho_results + file_name.jackknife(P="*", T="*", X="*")
+    globPath = glob.escape(FS.path_rho_results) + file_name.jackknife(P="*", T="*", X="*")
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_sos_coupled_file_list(FS, B="*"):
     """return a list of the full path to each sos(coupled) file that might be used"""
-    globPath = FS.path_vib_params + file_name.sos("*")
+    globPath = glob.escape(FS.path_vib_params) + file_name.sos(str(B))
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_sos_sampling_file_list(FS, B="*"):
     """return a list of the full path to each sos(sampling) file that might be used"""
-    globPath = FS.path_rho_params + file_name.sos("*")
+    globPath = glob.escape(FS.path_rho_params) + file_name.sos(str(B))
     return [file for file in glob.glob(globPath)]
 
 
@@ -311,7 +311,7 @@ def load_pimc_data(FS, P, T, pimc_results):
     currently solved by:
         self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
     """
-    path_data_points = FS.template_pimc.format(P=P, T=T, J="*")
+    path_data_points = glob.escape(FS.path_rho_results) + file_name.pimc(J="*").format(P=P, T=T)
     list_of_files = [file for file in glob.glob(path_data_points)]
     pimc_results.load_multiple_results(list_of_files)
 
-- 
2.43.0


From 674644d173354a5480468c3b890ffb983ffd6d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:55 +0000
Subject: [PATCH 16/51] fix: support braces in the root directory

---
 pibronic/data/file_structure.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index 482efba..555b096 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -28,6 +28,11 @@ list_sub_dirs = [
     ]
 
 
+def _literal(path):
+    """ returns the path as (part of) a format string, where the braces in the path have no special meaning """
+    return path.replace("{", "{{").replace("}", "}}")
+
+
 # should this be renamed to DirectoryStructure?
 class FileStructure:
     """handles creation and verification of default file structure storing data from/to jobs"""
@@ -93,11 +98,11 @@ class FileStructure:
         # self.jackknife_suffix = root_suffix + "P{P:d}_T{T:.2f}_X{X:d}_thermo"
 
         # can't use os.path.join on these because they are format strings that haven't been fully resolved yet
-        self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
-        self.template_jackknife = self.path_rho_results + file_name.jackknife()
-        self.template_sos_rho = self.path_rho_params + file_name.sos()
-        self.template_sos_vib = self.path_vib_params + file_name.sos()
-        self.template_trotter_vib = self.path_vib_params + file_name.trotter()
+        self.template_pimc = _literal(self.path_rho_results) + file_name.pimc(J="{J:s}")
+        self.template_jackknife = _literal(self.path_rho_results) + file_name.jackknife()
+        self.template_sos_rho = _literal(self.path_rho_params) + file_name.sos()
+        self.template_sos_vib = _literal(self.path_vib_params) + file_name.sos()
+        self.template_trotter_vib = _literal(self.path_vib_params) + file_name.trotter()
 
         # TODO - should we factor this out into the file_name module?
         # self.template_pimc = file_name.pimc
@@ -186,9 +191,9 @@ class FileStructure:
                                    self.template_rho_plots.format(self.id_data, id_rho))
 
         #
-        self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
-        self.template_jackknife = self.path_rho_results + file_name.jackknife()
-        self.template_sos_rho = self.path_rho_params + file_name.sos()
+        self.template_pimc = _literal(self.path_rho_results) + file_name.pimc(J="{J:s}")
+        self.template_jackknife = _literal(self.path_rho_results) + file_name.jackknife()
+        self.template_sos_rho = _literal(self.path_rho_params) + file_name.sos()
 
         # TODO - now we can't reliably update the self.dir_list
         # should have a mode modular way of doing this
-- 
2.43.0


From 8baf9aa54b533762725920dba4cbb92a7e639045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:59 +0000
Subject: [PATCH 17/51] fix: analyse the existing results of the current models
 only

---
 pibronic/data/postprocessing.py |  2 ++
 pibronic/stats/stats.py         | 46 ++++++++++++++++++---------------
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 3f7b465..deb39c1 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -313,6 +313,8 @@ def load_pimc_data(FS, P, T, pimc_results):
     """
     path_data_points = glob.escape(FS.path_rho_results) + file_name.pimc(J="*").format(P=P, T=T)
     list_of_files = [file for file in glob.glob(path_data_points)]
+    # only use results which were generated by the current models
+    list_of_files = prune_results_using_hashes(FS, list_of_files)
     pimc_results.load_multiple_results(list_of_files)
 
     # TODO - add support for passing in the optional desired_number_of_samples paramter to the load_multiple_results method
diff --git a/pibronic/stats/stats.py b/pibronic/stats/stats.py
index ef21d65..b7bc445 100755
--- a/pibronic/stats/stats.py
+++ b/pibronic/stats/stats.py
@@ -145,6 +145,21 @@ def apply_parameter_restrictions(args):
     # return
 
 
+def build_arg_list(FS, list_pimc, args):
+    """ returns a list of all the parameter combinations we need to analyze
+    which are those combinations that have results generated by the current models """
+    valid_pimc = pp.prune_results_using_hashes(FS, list_pimc)
+    pairs = set((pp.extract_bead_value_from_pimc_file_path(path),
+                 pp.extract_temperature_value_from_pimc_file_path(path))
+                for path in valid_pimc)
+
+    return [(FS, P, T)
+            for P in args["pimc_beads"]
+            for T in args["temperatures"]
+            if (P, T) in pairs
+            ]
+
+
 def starmap_wrapper(FS, P, T, statistical_operation):
     """ this function allows us to use the multiprocessing starmap in a convient way inside basic_statistical_analysis_of_pimc() and basic_jackknife_analysis_of_pimc()
     input is a FileStructure object, a bead value, a temperature value, and a function which preforms the calculation
@@ -228,28 +243,22 @@ def statistical_analysis_of_pimc(FS, method="basic", location="local", samples=N
 
     apply_parameter_restrictions(args)  # for now this does nothing
 
-    # create a list of all the parameter combinations we need to analyze
-    arg_list = [(FS, P, T)
-                for P in args["pimc_beads"]
-                for T in args["temperatures"]
-                ]
-
     # choose what statistical analysis we are going to preform
-    if method is "basic":
+    if method == "basic":
         operation = basic_statistical_analysis
-    elif method is "alpha":
+    elif method == "alpha":
         operation = alpha_statistical_analysis
     else:
         raise Exception(f"Invalid value for parameter method:({method})")
 
     # dispatch multiple processes to execute the analyze concurrently
-    if location is "local":
+    if location == "local":
         basic_wrapper = partial(starmap_wrapper, statistical_operation=operation)
 
         with mp.Pool(__number_of_processes) as p:
-            p.starmap(basic_wrapper, arg_list)
+            p.starmap(basic_wrapper, build_arg_list(FS, list_pimc, args))
 
-    elif location is "server":
+    elif location == "server":
         assert False, "Need to write this code"
 
         # TODO - add a simple command to check that slurm is installed
@@ -345,24 +354,19 @@ def jackknife_analysis_of_pimc(FS, method="basic", location="local", samples=Non
 
     apply_parameter_restrictions(args)  # for now this does nothing
 
-    # create a list of all the parameter combinations we need to analyze
-    arg_list = [(FS, P, T)
-                for P in args["pimc_beads"]
-                for T in args["temperatures"]
-                ]
     # choose what statistical analysis we are going to preform
-    if method is "basic":
+    if method == "basic":
         operation = basic_jackknife_analysis
-    elif method is "alpha":
+    elif method == "alpha":
         operation = alpha_jackknife_analysis
 
     # dispatch multiple processes to execute the analyze concurrently
-    if location is "local":
+    if location == "local":
         jackknife_wrapper = partial(starmap_wrapper, statistical_operation=operation)
         with mp.Pool(__number_of_processes) as p:
-            p.starmap(jackknife_wrapper, arg_list)
+            p.starmap(jackknife_wrapper, build_arg_list(FS, list_pimc, args))
 
-    elif location is "server":
+    elif location == "server":
         assert False, "Need to write this code"
 
         # TODO - add a simple command to check that slurm is installed
-- 
2.43.0


From 73d8cc37578a1e5862c1d6e636d24abecb7917b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:03 +0000
Subject: [PATCH 18/51] fix: construct BoxData from a JSON file

---
 pibronic/pimc/pimc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 60654f8..b9ff256 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -497,7 +497,7 @@ class BoxData:
         """constructor wrapper"""
         with open(path, mode='r', encoding='UTF8') as target_file:
             file_data = target_file.read()
-        return cls.from_json_string(cls, file_data)
+        return cls.from_json_string(file_data)
 
     @classmethod
     def from_json_string(cls, json_str):
-- 
2.43.0


From 5ca2ed3ac0dc1ad14b97de4e8ce1e724a0924286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:07 +0000
Subject: [PATCH 19/51] fix: use the requested delta_beta when it is an integer

---
 pibronic/pimc/pimc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index b9ff256..318b1fb 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -575,7 +575,7 @@ class BoxData:
             self.tau = self.beta / self.beads
         # dumb hacks
         if SEP.dB.value in params.keys():
-            if type(params[SEP.dB.value]) is float:
+            if isinstance(params[SEP.dB.value], (int, float)):
                 self.delta_beta = params[SEP.dB.value]
 
         # fill the paths
-- 
2.43.0


From f245d0dd98980abafd41e08adac4f0c88009b624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:12 +0000
Subject: [PATCH 20/51] fix: encode the members of BoxData such that they can
 be decoded again

---
 pibronic/pimc/pimc.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 318b1fb..c7d172a 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -443,6 +443,7 @@ class BoxData:
 
     id_data = 0
     id_rho = 0
+    path_root = ""
 
     # instance of the ModelVibronic class
     # holds all parameters associated with the model
@@ -474,6 +475,7 @@ class BoxData:
         data = cls()
         data.id_data = FS.id_data
         data.id_rho = FS.id_rho
+        data.path_root = FS.path_root
 
         data.path_vib_model = FS.path_vib_model
         data.path_rho_model = FS.path_rho_model
@@ -521,18 +523,19 @@ class BoxData:
         if params is None:
             log.flow("params was none")
             params = {
-                SEP.X: self.samples,
-                SEP.nBlk: self.blocks,
-                SEP.A: self.states,
-                SEP.P: self.beads,
-                SEP.N: self.modes,
-                SEP.T: self.temperature,
-                SEP.BlkS: self.block_size,
-                SEP.dB: self.delta_beta,
-                SEP.D: self.id_data,
-                SEP.R: self.id_rho,
-                SEP.beta: self.beta,
-                SEP.tau: self.tau,
+                SEP.X.value: self.samples,
+                SEP.nBlk.value: self.blocks,
+                SEP.A.value: self.states,
+                SEP.P.value: self.beads,
+                SEP.N.value: self.modes,
+                SEP.T.value: self.temperature,
+                SEP.BlkS.value: self.block_size,
+                SEP.dB.value: self.delta_beta,
+                SEP.D.value: self.id_data,
+                SEP.R.value: self.id_rho,
+                SEP.beta.value: self.beta,
+                SEP.tau.value: self.tau,
+                "path_root": self.path_root,
                 # "s": self.hash_vib,
                 # "x": self.hash_rho,
             }
@@ -580,6 +583,7 @@ class BoxData:
 
         # fill the paths
         FS = file_structure.FileStructure(params["path_root"], self.id_data, self.id_rho)
+        self.path_root = FS.path_root
         self.path_vib_model = FS.path_vib_model
         self.path_rho_model = FS.path_rho_model
 
-- 
2.43.0


From 13b0831d08f38798863e73dffb805c47e5100e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:51 +0000
Subject: [PATCH 21/51] fix: submit jobs with the path of the interpreter and
 of the job_boss directory

---
 pibronic/server/job_boss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 762bf3b..c508529 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -30,12 +30,12 @@ job_almost_done_flag = False
 
 def get_path_to_python_executable():
     """returns the absolute path to the python executable currently executing this script"""
-    return os.path.abspath(os.__file__)
+    return os.path.abspath(sys.executable)
 
 
 def get_path_of_job_boss_directory():
     """returns the absolute path to the directory holding job_boss.py """
-    return os.path.abspath(__file__)
+    return os.path.dirname(os.path.abspath(__file__))
 
 
 def subprocess_submit_asynch_wrapper(cmd, **kwargs):
-- 
2.43.0


From e6c858334607d2dd8b5faaa2c17889e905b46201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:57 +0000
Subject: [PATCH 22/51] fix: do not share parameters between submissions

---
 pibronic/server/job_boss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index c508529..42c9161 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -6,6 +6,7 @@ import subprocess
 import threading
 import socket
 import signal
+import copy
 import time
 import sys
 import os
@@ -464,6 +465,9 @@ class SubmissionClass():
     def __init__(self, input_FS, input_param_dict=None):
         """ takes a FileStructure object and an optional parameter dictionary - no error checking at the moment """
 
+        # the class attribute only stores the default values, which are not shared between submissions
+        self.param_dict = copy.deepcopy(self.param_dict)
+
         # set the default hostname when initialized
         self.param_dict['hostname'] = get_hostname()
 
@@ -577,7 +581,6 @@ class PimcSubmissionClass(SubmissionClass):
         temperature_list = self.param_dict["temperature_list"]
         bead_list = self.param_dict["bead_list"]
 
-        import copy
         for T in temperature_list:
             for P in bead_list:
 
-- 
2.43.0


From 128e1672f74d55ec2ebd802b649c37e98508d63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:03 +0000
Subject: [PATCH 23/51] fix: plan enough jobs and complete blocks for the
 requested number of samples

---
 pibronic/server/job_boss.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 42c9161..29a2eb2 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -553,24 +553,24 @@ class PimcSubmissionClass(SubmissionClass):
         assert block_size <= n_samples, f"block size {block_size} must be less than or equal to the number of samples {n_samples}"
         assert block_size <= self.MAX_SAMPLES_PER_JOB, f"block size {block_size} must be less than or equal to the maximum number of samples per job {self.MAX_SAMPLES_PER_JOB}"
 
+        # calculate how many (complete) blocks we need for each job
+        blocks_per_job = min(-(-n_samples // block_size), self.MAX_SAMPLES_PER_JOB // block_size)
+        self.param_dict["number_of_blocks"] = blocks_per_job
+
         # calculate how many samples we need for each job
-        samples_per_job = min(n_samples, self.MAX_SAMPLES_PER_JOB)
+        samples_per_job = blocks_per_job * block_size
         self.param_dict["number_of_samples_per_job"] = samples_per_job
         self.param_dict["number_of_samples"] = samples_per_job
 
-        # calculate how many blocks we need for each job
-        blocks_per_job = samples_per_job // block_size
-        self.param_dict["number_of_blocks"] = blocks_per_job
-
         # calculate how many jobs we need
         total_samples = self.param_dict["number_of_samples_overall"]
 
         # TODO - HACKY
-        if total_samples is 0:
+        if total_samples == 0:
             total_samples = n_samples
             self.param_dict["number_of_samples_overall"] = n_samples
 
-        self.n_jobs = max(1, total_samples // self.MAX_SAMPLES_PER_JOB)
+        self.n_jobs = max(1, -(-total_samples // samples_per_job))
         return
 
     def submit_jobs(self):
-- 
2.43.0


From 0290d90ab7fd0d1e9ad0a811d9b300563ba8ff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:08 +0000
Subject: [PATCH 24/51] fix: search the contents of the slurm output for errors

---
 pibronic/server/job_boss.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 29a2eb2..263618a 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -150,19 +150,22 @@ def check_slurm_output(path_root, id_job):
     log.debug(f"Checking slurm output:\n{slurm_path:}\n")
 
     with open(slurm_path, "r") as source_file:
-        if not ("Finished" in source_file):
-            log.debug("We got here too early?")  # should this be an exception?
+        output = source_file.read()
 
-        elif "SIGSEGV" in source_file:
-            raise MemoryError(f"Job {id_job:d} had a Segmentation fault, see file {slurm_path:s}")
+    if not ("Finished" in output):
+        log.debug("We got here too early?")  # should this be an exception?
 
-        elif "Killed" in source_file:
-            # most likely cause is that it ran out of memory
-            if "Exceeded step memory limit" in source_file:
-                raise MemoryError(f"Job {id_job:d} ran out of memory, see file {slurm_path:s}")
-            raise Exception(f"Job {id_job:d} failed for an unknown reason, see file {slurm_path:s}")
-        else:
-            log.warning(f"Undefined execution, check file {slurm_path:s} for issues")
+    elif "SIGSEGV" in output:
+        raise MemoryError(f"Job {id_job:d} had a Segmentation fault, see file {slurm_path:s}")
+
+    elif "Killed" in output:
+        # most likely cause is that it ran out of memory
+        if "Exceeded step memory limit" in output:
+            raise MemoryError(f"Job {id_job:d} ran out of memory, see file {slurm_path:s}")
+        raise Exception(f"Job {id_job:d} failed for an unknown reason, see file {slurm_path:s}")
+
+    else:
+        log.warning(f"Undefined execution, check file {slurm_path:s} for issues")
     return
 
 
-- 
2.43.0


From ddbd79841522fe9bc2ee4f5fe8657bb1ccb0b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:27 +0000
Subject: [PATCH 25/51] fix: resume the electronic structure workflow after the
 last recorded state

---
 pibronic/vibronic/electronic_structure.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 842af2e..863c581 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1520,24 +1520,24 @@ class VibronExecutionClass:
 
             old_state = str(line.strip())
 
-            if old_state == State(State.max()):
+            if old_state == State(State.max()).name:
                 self.state = State(State.max())
 
-            elif old_state in State:
-                self.state = State(State(old_state).value + 1)
+            elif old_state in State.__members__:
+                self.state = State(State[old_state].value + 1)
 
-            for member in State:
-                if member.name == str(line.strip()):
-                    self.state = State(member.value + 1)
-                    break
             else:
                 s = ("State file {:s} contained an invalid state: {:s}"
                      "Defaulting to initial state"
                      )
-                log.debug(s.format(line, self.path_state))
+                log.debug(s.format(self.path_state, old_state))
                 self.state = State(State.min())
-                break
 
+            # only the last recorded state matters
+            return
+
+        # the file only contains blank lines
+        self.state = State(State.min())
         return
 
     def parse_input_parameters(self, file_path=None):
-- 
2.43.0


From 98e75aeed073191f3ddf7412e5a692c5314e9522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:31 +0000
Subject: [PATCH 26/51] fix: report errors of the electronic structure job
 submission

---
 pibronic/vibronic/electronic_structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 863c581..62eb0d5 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -347,9 +347,9 @@ def submit_job(parameter_dictionary):
     job_id, out, error = job_boss.submit_job(command, parameter_dictionary)
 
     # check for any errors
-    if error.decode('utf-8') is not "":
+    if error != "":
         s = "Failed to execute script \n{:s}\n due to {:s}"
-        raise Exception(s.format(command, error.decode('utf-8')))
+        raise Exception(s.format(command, error))
 
     return job_id
 # -----------------------------------------------------------
-- 
2.43.0


From ec7da5afb89bc4750278611d2d8676334b0dc16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:35 +0000
Subject: [PATCH 27/51] fix: determine the hostname and partition of electronic
 structure jobs

---
 pibronic/vibronic/electronic_structure.py | 29 +++++++++++++----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 62eb0d5..0aefb27 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -321,6 +321,11 @@ def verify_aces2_completed(path_root, file_path, job_id):
     return
 
 
+def get_partition():
+    """returns the name of the partition that the jobs are submitted to"""
+    return 'highmem' if job_boss.get_hostname() == 'feynman' else 'serial'
+
+
 def submit_job(parameter_dictionary):
     """wrapper for job_boss job submission"""
 
@@ -438,14 +443,14 @@ def hartree_fock_calculation(path_root, name, zmat, parameter_dictionary, hf_typ
         "cpus": 1,
         "work_dir": path_root,
         "output": path_output,
-        "partition": job_boss.partition,
+        "partition": get_partition(),
         "make_scratch": 0,
         "scratch_in": copy_in,
         "scratch_out": copy_out,
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -712,14 +717,14 @@ def geometry_optimization(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": get_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -850,14 +855,14 @@ def vibrational_frequency(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": get_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "fcm",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -919,14 +924,14 @@ def ip_calculation(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": get_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -1068,14 +1073,14 @@ def prepVibron_calculation(path_root, name, zmat, parameter_dictionary):
         "cpus": 2,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": get_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "vibron",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -1250,14 +1255,14 @@ def vibron_calculation(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": get_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobvibron",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
-- 
2.43.0


From 4cac09994da4cbded499e1b0ab51c670cdfc37d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:39 +0000
Subject: [PATCH 28/51] fix: return the template of the vibron preparation

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 0aefb27..0058fe7 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1045,7 +1045,7 @@ def _create_template(zmat, memory_size):
     template += "\n\t" + "heff_high=200"
     template += "\n" + "*end"
     template += "\n"
-    return
+    return template
 
 
 def prepVibron_calculation(path_root, name, zmat, parameter_dictionary):
-- 
2.43.0


From 38be791497990613279e4205ede2b4cb8f3adf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:43 +0000
Subject: [PATCH 29/51] fix: do not loop forever on incomplete output files

---
 pibronic/vibronic/electronic_structure.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 0058fe7..11182d3 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -767,7 +767,9 @@ def parse_opt_output(vibron):
                 lines = []
                 while True:
                     line = memmap_file.readline().decode(encoding="utf-8")
-                    if line in ["\n", "Frequencies of the updated Hessian at convergence"]:
+                    if line == "":
+                        raise Exception("The optimized geometry in {:s} is incomplete".format(file_path))
+                    if line.strip() in ["", "Frequencies of the updated Hessian at convergence"]:
                         break
 
                     lines.append(line)
@@ -796,7 +798,9 @@ def parse_opt_output(vibron):
                 lines = []
                 while True:
                     line = memmap_file.readline().decode(encoding="utf-8")
-                    if line in ["\n", "Frequencies of the updated Hessian at convergence"]:
+                    if line == "":
+                        raise Exception("The optimized geometry in {:s} is incomplete".format(file_path))
+                    if line.strip() in ["", "Frequencies of the updated Hessian at convergence"]:
                         break
 
                     lines.append(line)
@@ -976,7 +980,9 @@ def parse_ip_output(vibron):
                 lines = []
                 while True:
                     line = memmap_file.readline().decode(encoding="utf-8")
-                    if(line is "\n" or "--------" in line):
+                    if line == "":
+                        raise Exception("The summary of the states in {:s} is incomplete".format(file_path))
+                    if(line.strip() == "" or "--------" in line):
                         break
 
                     lines.append(line)
-- 
2.43.0


From ec08ea0a2d072d80a972e73df17b3555a2f46c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:47 +0000
Subject: [PATCH 30/51] fix: use all digits of the DROPMO value

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 11182d3..3eb82c3 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -622,7 +622,7 @@ def _estimate_NIP(vibron, path):
     lines = _extract_lines_for_estimating_NIP(path)
     # grab the guess_dropmo as a number
     string_dropmo = vibron.parameter_dictionary["DROPMO"]
-    guess_dropmo = 0 if string_dropmo == "" else int(string_dropmo[-1])
+    guess_dropmo = 0 if string_dropmo == "" else int(string_dropmo.replace("=", "-").split("-")[-1])
     print(guess_dropmo)
 
     guess_nip, list_ev = _guess_NIP_value(lines, guess_dropmo)
-- 
2.43.0


From dceea0196d9f3285dd1f3ab50f56f508e01713b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:50 +0000
Subject: [PATCH 31/51] fix: do not share parameters between
 VibronExecutionClass objects

---
 pibronic/vibronic/electronic_structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 3eb82c3..3c1fcd3 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1452,6 +1452,7 @@ class VibronExecutionClass:
     def __init__(self, name, root, state=None):
         self.name = name
         self.path_root = root
+        self.parameter_dictionary = self.parameter_dictionary.copy()
         self.file_in = default_file_in.copy()
         self.file_out = default_file_out.copy()
         self.path_state = join(self.path_root, name_of_state_file)
-- 
2.43.0


From c2b8b70537fa5e118c80fb4f729bd061a05059cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:55 +0000
Subject: [PATCH 32/51] fix: read numerical electronic structure parameters as
 integers

---
 pibronic/vibronic/electronic_structure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 3c1fcd3..beec357 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1576,6 +1576,10 @@ class VibronExecutionClass:
                             s = "Header {:s} is not valid\n Check that your {:s} has the correct formatting"
                             raise ValueError(s.format(header, file_path))
 
+                        # the numerical parameters are formatted as integers
+                        if isinstance(self.parameter_dictionary[header], int):
+                            data = int(data)
+
                         self.parameter_dictionary[header] = data
 
         except ValueError as error_object:
-- 
2.43.0


From 8a180dc96e1131255828f1f2fdf7000d2642adce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 33/51] fix: read the percent singles that follow the header

---
 pibronic/vibronic/electronic_structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index beec357..fb8073d 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -974,7 +974,8 @@ def parse_ip_output(vibron):
 
                 # throw away the header lines
                 past_headers = skip_forward_n_lines(memmap_file, 5, memmap_file.tell())
-                memmap_file.seek(past_headers)
+                # the first row begins after the newline character
+                memmap_file.seek(past_headers + 1)
 
                 # store the lines with the relevant information
                 lines = []
-- 
2.43.0


From b0eb38229162d5339ae687cc91f0c91bfde86223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:01 +0000
Subject: [PATCH 34/51] fix: a failed vibron calculation was recorded as
 completed, so resuming skipped it

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index fb8073d..896e4b7 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1642,6 +1642,7 @@ class VibronExecutionClass:
         """wrapper method"""
         if self.state == State.VIBRON:
             vibron_calculation(self.path_root, self.name, self.zmat, self.parameter_dictionary)
+            parse_vibron_output(self)  # important to do before recording the step as completed
             self.advance()
         return
 
@@ -1670,7 +1671,6 @@ class VibronExecutionClass:
             parse_prepVibron_output(self)
 
             self.vibron_calc()
-            parse_vibron_output(self)
             self.advance()  # important to do after parsing vibron_output
             log.info("We have reached the end of execution.")
         return
-- 
2.43.0


From d12bee6ed73f5a1685a80b17060f6bbe54b44939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:55 +0000
Subject: [PATCH 35/51] fix: tables of outputs cut inside the indentation of a
 row were taken for complete

---
 pibronic/vibronic/electronic_structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 896e4b7..8cc6fd4 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -767,7 +767,7 @@ def parse_opt_output(vibron):
                 lines = []
                 while True:
                     line = memmap_file.readline().decode(encoding="utf-8")
-                    if line == "":
+                    if not line.endswith("\n"):
                         raise Exception("The optimized geometry in {:s} is incomplete".format(file_path))
                     if line.strip() in ["", "Frequencies of the updated Hessian at convergence"]:
                         break
@@ -798,7 +798,7 @@ def parse_opt_output(vibron):
                 lines = []
                 while True:
                     line = memmap_file.readline().decode(encoding="utf-8")
-                    if line == "":
+                    if not line.endswith("\n"):
                         raise Exception("The optimized geometry in {:s} is incomplete".format(file_path))
                     if line.strip() in ["", "Frequencies of the updated Hessian at convergence"]:
                         break
@@ -981,7 +981,7 @@ def parse_ip_output(vibron):
                 lines = []
                 while True:
                     line = memmap_file.readline().decode(encoding="utf-8")
-                    if line == "":
+                    if not line.endswith("\n"):
                         raise Exception("The summary of the states in {:s} is incomplete".format(file_path))
                     if(line.strip() == "" or "--------" in line):
                         break
-- 
2.43.0


From c765dd87b3f75a48ec2a937439b0df16c52f2792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:23 +0000
Subject: [PATCH 36/51] fix: partial results of a failed Julia calculation were
 stored as if it had completed

---
 pibronic/julia_wrapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pibronic/julia_wrapper.py b/pibronic/julia_wrapper.py
index 819d93c..6b78ddc 100755
--- a/pibronic/julia_wrapper.py
+++ b/pibronic/julia_wrapper.py
@@ -103,6 +103,11 @@ def compute(command, path_src, old_dict, input_beta):
         print(f"We ran into an error: {error.decode():s}")
         return False
 
+    # a calculation which stopped early may have printed some of its results
+    if p.returncode != 0:
+        print(f"The Julia code failed with exit status {p.returncode}: {error.decode():s}")
+        return False
+
     output_dict = parse_ouput(out)
     # print(output_dict)
 
-- 
2.43.0


From 342baa6af3e70f70ebcab9e3f93d15aab8870995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:12 +0000
Subject: [PATCH 37/51] fix: count the states from the gap among the orbitals
 which are kept

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 8cc6fd4..89bf333 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -606,7 +606,7 @@ def _guess_NIP_value(lines, guess_dropmo):
         log.debug("second_highest: "+str(second_highest))
 
         # the suggested nip value
-        guess_nip = len(diffs) - diffs.index(second_highest)
+        guess_nip = len(diffs2) - diffs2.index(second_highest)
         log.debug("guess_nip: "+str(guess_nip))
 
     except Exception as error:
-- 
2.43.0


From 2a3e9700b18f0dce78a101004565172c0ed5b7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:41 +0000
Subject: [PATCH 38/51] fix: the heat capacity plot used a method which its
 class does not have

---
 pibronic/plotting/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 2d8d1d9..c407254 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -1099,7 +1099,7 @@ class plot_Z_test(plotVirtual):
         # print Cv values
         for T in self.lst_T[idx_FS]:
             idx_T = self.lst_T[idx_FS].index(T)
-            tau_values = self.generate_tau_values(T)
+            tau_values = generate_tau_values(self, T, idx_FS)
             for X in self.lst_X[idx_FS]:
                 idx_X = self.lst_X[idx_FS].index(X)
 
-- 
2.43.0


From 0d7a9dde02770329caf91399839de361e2304456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:48 +0000
Subject: [PATCH 39/51] fix: missing sum over states results were replaced by
 those of the previous FileStructure

---
 pibronic/plotting/plotting.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index c407254..9ca1fc3 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -66,9 +66,12 @@ def load_sos(self, basis_size=80):
     for idx_FS, FS in enumerate(self.FS_lst):
         path = FS.template_sos_vib.format(B=basis_size)
 
-        if os.path.isfile(path):
-            with open(path, 'r') as file:
-                data = json.loads(file.read())
+        # without results there is nothing to load, the results of another FS must not be used instead
+        if not os.path.isfile(path):
+            continue
+
+        with open(path, 'r') as file:
+            data = json.loads(file.read())
 
         for T in self.lst_T[idx_FS]:
             self.sos_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
-- 
2.43.0


From a6cde6c1cf7e4d32aeed5fa3f18df930af6e7c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:15 +0000
Subject: [PATCH 40/51] fix: grid plots of the coupled model used the
 dimensions of the sampling model

---
 pibronic/plotting/grid_plots.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pibronic/plotting/grid_plots.py b/pibronic/plotting/grid_plots.py
index 522d722..7de7d12 100755
--- a/pibronic/plotting/grid_plots.py
+++ b/pibronic/plotting/grid_plots.py
@@ -60,7 +60,7 @@ class plotGrids():
 
     def annotate_intensity_grid(self, fig, ax, data, title):
         """ commonly shared code for plotting"""
-        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)
+        A, N = vIO.extract_dimensions_of_model(self.FS)
 
         # We want 1 tick for each square
         plt.locator_params(nbins=A)
@@ -154,7 +154,7 @@ class plotGrids():
 
     def plot_original_linear_grids(self, data):
         """ x """
-        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)
+        A, N = vIO.extract_dimensions_of_model(self.FS)
         for j in range(N):
             title = f"Original linear terms Grid (Mode {j+1:d})"
             filename = f"original_linear_grid_D{self.FS.id_data:d}_N{j+1:d}.pdf"
@@ -163,7 +163,7 @@ class plotGrids():
 
     def plot_coupled_linear_grids(self, data):
         """ x """
-        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)
+        A, N = vIO.extract_dimensions_of_model(self.FS)
         for j in range(N):
             title = f"Coupled linear terms Grid (Mode {j+1:d})"
             filename = f"coupled_linear_grid_D{self.FS.id_data:d}_N{j+1:d}.pdf"
@@ -202,7 +202,7 @@ class plotGrids():
 
     def plot_original_quadratic_grids(self, data):
         """ x """
-        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)
+        A, N = vIO.extract_dimensions_of_model(self.FS)
         for j1,  j2 in it.product(range(N), range(N)):
             title = f"Original quadratic terms Grid (Modes {j1+1:d}{j2+1:d})"
             filename = f"original_quadratic_grid_D{self.FS.id_data:d}_N{j1+1:d}_N{j2+1:d}.pdf"
@@ -211,7 +211,7 @@ class plotGrids():
 
     def plot_coupled_quadratic_grids(self, data):
         """ x """
-        A, N = vIO.extract_dimensions_of_diagonal_model(self.FS)
+        A, N = vIO.extract_dimensions_of_model(self.FS)
         for j1,  j2 in it.product(range(N), range(N)):
             title = f"Coupled quadratic terms Grid (Modes {j1+1:d}{j2+1:d})"
             filename = f"coupled_quadratic_grid_D{self.FS.id_data:d}_N{j1+1:d}_N{j2+1:d}.pdf"
-- 
2.43.0


From 8a9c8d9f0fc8329c2172965773fd3236601fc5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:02 +0000
Subject: [PATCH 41/51] fix: results at several temperatures could not be
 plotted

---
 pibronic/plotting/plotting.py | 138 +++++++++++++++++-----------------
 1 file changed, 69 insertions(+), 69 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 9ca1fc3..663e2a6 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -361,11 +361,9 @@ class plot_original_Z_test(plotVirtual):
         return tau_arr
 
     def plot_Z(self):
-        fig, ax = plt.subplots(1, 1)
-
-        # HACKY - this won't work anymore with the nested lists
-        if len(self.lst_T[0]) is 1:
-            ax = [ax, ]
+        # one panel for each temperature
+        fig, ax = plt.subplots(max(1, len(self.lst_T[0])), 1, squeeze=False)
+        ax = ax[:, 0]
 
         # print Z values
         for T in self.lst_T[0]:
@@ -392,22 +390,24 @@ class plot_original_Z_test(plotVirtual):
 
         #
         x_label = r'$\tau\,(\text{eV}^{-1})$'
-        ax[0].set_xlabel(x_label)
-        ax[0].set_xscale('log')
+        for panel in ax:
+            panel.set_xlabel(x_label)
+            panel.set_xscale('log')
 
-        # plt.minorticks_off() # turns off minor ticks that are added with a log plot
-        # points BOTH ticks inward
-        ax[0].tick_params(which='both', direction='in', pad=2)
+            # plt.minorticks_off() # turns off minor ticks that are added with a log plot
+            # points BOTH ticks inward
+            panel.tick_params(which='both', direction='in', pad=2)
 
-        # Remove the plot frame lines. They are unnecessary chart junk.
-        ax[0].spines["top"].set_visible(False)
-        ax[0].spines["right"].set_visible(False)
+            # Remove the plot frame lines. They are unnecessary chart junk.
+            panel.spines["top"].set_visible(False)
+            panel.spines["right"].set_visible(False)
 
         y_label = r"$\frac{Z_g}{Z_\varrho}$"
         if self.percent_error:
             y_label = r"\% Difference    $\frac{Z_g}{Z_\varrho}$"
 
-        ax[0].set_ylabel(y_label)
+        for panel in ax:
+            panel.set_ylabel(y_label)
 
         # plot title
         A, N = vIO.extract_dimensions_of_diagonal_model(self.FS_lst[0])
@@ -499,10 +499,11 @@ class plot_original_Z_vs_diagonal_test(plot_Z_multiple_FS):
         return tau_arr
 
     def plot_Z(self):
-        fig, ax = plt.subplots(1, 1)
-
-        if not isinstance(ax, list):
-            ax = [ax, ]
+        # one panel for each temperature, the FileStructures may have results at different temperatures
+        temperatures = sorted(set().union(*self.lst_T))
+        fig, ax = plt.subplots(len(temperatures), 1, squeeze=False)
+        ax = dict(zip(temperatures, ax[:, 0]))
+        first_ax = ax[temperatures[0]]
 
         labels = {0: "Z (id\_rho={:d}) (X={:.1E}) diagonal of transformed matrix ",
                   1: "Z (id\_rho={:d}) (X={:.1E}) original coupled model ",
@@ -525,17 +526,17 @@ class plot_original_Z_vs_diagonal_test(plot_Z_multiple_FS):
                 yerr = self.arr[idx_FS][:, idx_T, idx_X]["Z error"].view()
                 label = labels[FS.id_rho].format(FS.id_rho, X)
 
-                ax[idx_T].errorbar(x, y, xerr=None, yerr=yerr,
+                ax[T].errorbar(x, y, xerr=None, yerr=yerr,
                                    marker='o' if idx_FS == 0 else 'x',
                                    markerfacecolor="None",
                                    label=label)
-                ax[idx_T].legend()
+                ax[T].legend()
 
                 true_answer = self.analytical_orig_list[idx_FS][f"{T:.2f}"]["Z_coupled"]
                 if self.percent_error:
                     true_answer = 0.0
 
-                ax[idx_T].axhline(y=true_answer, linewidth=2, color='r',
+                ax[T].axhline(y=true_answer, linewidth=2, color='r',
                                   label='Analytically derived Z from original model'
                                   )
 
@@ -546,13 +547,13 @@ class plot_original_Z_vs_diagonal_test(plot_Z_multiple_FS):
 
             # Build and manually place the inset (for the rho_1 case )
 
-            # ax[0].xaxis.set_minor_formatter(LogFormatterSciNotation(minor_thresholds=(11, 10)))
+            # first_ax.xaxis.set_minor_formatter(LogFormatterSciNotation(minor_thresholds=(11, 10)))
 
             ax_ins = fig.add_axes([0, 0, 1, 1], label='inset 1')
-            ip = InsetPosition(ax[0], [0.1, 0.3, 0.5, 0.6])  # [%left, %up, %width, %height]
+            ip = InsetPosition(first_ax, [0.1, 0.3, 0.5, 0.6])  # [%left, %up, %width, %height]
             ax_ins.set_axes_locator(ip)
             # Connect the inset to its respective region
-            mark_inset(ax[0], ax_ins, loc1=3, loc2=4, fc="none", ec="0.5")
+            mark_inset(first_ax, ax_ins, loc1=3, loc2=4, fc="none", ec="0.5")
 
             # window dressing?
             # ax_ins.set_xscale('log')
@@ -607,16 +608,17 @@ class plot_original_Z_vs_diagonal_test(plot_Z_multiple_FS):
 
         #
         x_label = r'$\tau\,(\text{eV}^{-1})$'
-        ax[0].set_xlabel(x_label)
-        ax[0].set_xscale('log')
+        for panel in ax.values():
+            panel.set_xlabel(x_label)
+            panel.set_xscale('log')
 
-        # plt.minorticks_off() # turns off minor ticks that are added with a log plot
-        # points BOTH ticks inward
-        ax[0].tick_params(which='both', direction='in', pad=2)
+            # plt.minorticks_off() # turns off minor ticks that are added with a log plot
+            # points BOTH ticks inward
+            panel.tick_params(which='both', direction='in', pad=2)
 
-        # Remove the plot frame lines. They are unnecessary chart junk.
-        ax[0].spines["top"].set_visible(False)
-        ax[0].spines["right"].set_visible(False)
+            # Remove the plot frame lines. They are unnecessary chart junk.
+            panel.spines["top"].set_visible(False)
+            panel.spines["right"].set_visible(False)
 
         # y_label = r"$\frac{Z_g}{Z_\varrho}$"
         y_label = r"$Z_H$"
@@ -624,8 +626,9 @@ class plot_original_Z_vs_diagonal_test(plot_Z_multiple_FS):
             # y_label = r"\% Difference    $\frac{Z_g}{Z_\varrho}$"
             y_label = r"\% Difference    $Z_H$"
 
-        ax[0].set_ylabel(y_label)
-        # ax[0].set_yscale('log')
+        for panel in ax.values():
+            panel.set_ylabel(y_label)
+        # panel.set_yscale('log')
 
         # plot title
         A, N = vIO.extract_dimensions_of_diagonal_model(self.FS_lst[0])
@@ -702,10 +705,11 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
         self.prepare_data()
 
     def plot_Z(self):
-        fig, ax = plt.subplots(1, 1)
-
-        if not isinstance(ax, list):
-            ax = [ax, ]
+        # one panel for each temperature, the FileStructures may have results at different temperatures
+        temperatures = sorted(set().union(*self.lst_T))
+        fig, ax = plt.subplots(len(temperatures), 1, squeeze=False)
+        ax = dict(zip(temperatures, ax[:, 0]))
+        first_ax = ax[temperatures[0]]
 
         labels = {0: "Z (id\_rho={:d}) (X={:.1E}) diagonal of transformed matrix ",
                   1: "Z (id\_rho={:d}) (X={:.1E}) alternative sampling distribution from paper",
@@ -730,17 +734,17 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
                 yerr = self.arr[idx_FS][:, idx_T, idx_X]["Z error"].view()
                 label = labels[FS.id_rho].format(FS.id_rho, X)
 
-                ax[idx_T].errorbar(x, y, xerr=None, yerr=yerr,
+                ax[T].errorbar(x, y, xerr=None, yerr=yerr,
                                    marker='o' if idx_FS == 0 else 'x',
                                    markerfacecolor="None",
                                    label=label)
-                ax[idx_T].legend()
+                ax[T].legend()
 
                 true_answer = self.sos_params[f"{T:.2f}"]["Z_coupled"]
                 if self.percent_error:
                     true_answer = 0.0
 
-                ax[idx_T].axhline(y=true_answer, linewidth=2, color='r',
+                ax[T].axhline(y=true_answer, linewidth=2, color='r',
                                   label='SOS derived Z from coupled model'
                                   )
 
@@ -752,13 +756,13 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
 
             # Build and manually place the inset (for the rho_1 case )
 
-            # ax[0].xaxis.set_minor_formatter(LogFormatterSciNotation(minor_thresholds=(11, 10)))
+            # first_ax.xaxis.set_minor_formatter(LogFormatterSciNotation(minor_thresholds=(11, 10)))
 
             ax_ins = fig.add_axes([0, 0, 1, 1], label='inset 1')
-            ip = InsetPosition(ax[0], [0.1, 0.3, 0.5, 0.6])  # [%left, %up, %width, %height]
+            ip = InsetPosition(first_ax, [0.1, 0.3, 0.5, 0.6])  # [%left, %up, %width, %height]
             ax_ins.set_axes_locator(ip)
             # Connect the inset to its respective region
-            mark_inset(ax[0], ax_ins, loc1=3, loc2=4, fc="none", ec="0.5")
+            mark_inset(first_ax, ax_ins, loc1=3, loc2=4, fc="none", ec="0.5")
 
             # window dressing?
             # ax_ins.set_xscale('log')
@@ -821,16 +825,17 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
 
         #
         x_label = r'$\tau\,(\text{eV}^{-1})$'
-        ax[0].set_xlabel(x_label)
-        ax[0].set_xscale('log')
+        for panel in ax.values():
+            panel.set_xlabel(x_label)
+            panel.set_xscale('log')
 
-        # plt.minorticks_off() # turns off minor ticks that are added with a log plot
-        # points BOTH ticks inward
-        ax[0].tick_params(which='both', direction='in', pad=2)
+            # plt.minorticks_off() # turns off minor ticks that are added with a log plot
+            # points BOTH ticks inward
+            panel.tick_params(which='both', direction='in', pad=2)
 
-        # Remove the plot frame lines. They are unnecessary chart junk.
-        ax[0].spines["top"].set_visible(False)
-        ax[0].spines["right"].set_visible(False)
+            # Remove the plot frame lines. They are unnecessary chart junk.
+            panel.spines["top"].set_visible(False)
+            panel.spines["right"].set_visible(False)
 
         # y_label = r"$\frac{Z_g}{Z_\varrho}$"
         y_label = r"$Z_H$"
@@ -838,8 +843,9 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
             # y_label = r"\% Difference    $\frac{Z_g}{Z_\varrho}$"
             y_label = r"\% Difference    $Z_H$"
 
-        ax[0].set_ylabel(y_label)
-        # ax[0].set_yscale('log')
+        for panel in ax.values():
+            panel.set_ylabel(y_label)
+        # panel.set_yscale('log')
 
         # plot title
         A, N = vIO.extract_dimensions_of_diagonal_model(self.FS_lst[0])
@@ -1025,11 +1031,9 @@ class plot_Z_test(plotVirtual):
         return
 
     def plot_Z(self):
-        fig, ax = plt.subplots(1, 1)
-
-        # HACKY - this won't work anymore with the nested lists
-        if len(self.lst_T[0]) is 1:
-            ax = [ax, ]
+        # one panel for each temperature
+        fig, ax = plt.subplots(max(1, len(self.lst_T[0])), 1, squeeze=False)
+        ax = ax[:, 0]
 
         idx_FS = 0
 
@@ -1058,11 +1062,9 @@ class plot_Z_test(plotVirtual):
         return
 
     def plot_E(self):
-        fig, ax = plt.subplots(1, 1)
-
-        # HACKY - this won't work anymore with the nested lists
-        if len(self.lst_T[0]) is 1:
-            ax = [ax, ]
+        # one panel for each temperature
+        fig, ax = plt.subplots(max(1, len(self.lst_T[0])), 1, squeeze=False)
+        ax = ax[:, 0]
 
         idx_FS = 0
 
@@ -1091,11 +1093,9 @@ class plot_Z_test(plotVirtual):
         return
 
     def plot_Cv(self):
-        fig, ax = plt.subplots(1, 1)
-
-        # HACKY - this won't work anymore with the nested lists
-        if len(self.lst_T[0]) is 1:
-            ax = [ax, ]
+        # one panel for each temperature
+        fig, ax = plt.subplots(max(1, len(self.lst_T[0])), 1, squeeze=False)
+        ax = ax[:, 0]
 
         idx_FS = 0
 
-- 
2.43.0


From 5fb638513039cfef90194807b417c6fe03c2354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:08 +0000
Subject: [PATCH 42/51] fix: the comparison with the sum over states used an
 attribute which is never set

---
 pibronic/plotting/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 663e2a6..7afcdfe 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -687,7 +687,7 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
                     idx_T = self.lst_T[idx_FS].index(T)
 
                     view = self.arr[idx_FS][:, idx_T, idx_X].view()
-                    sos = self.sos_params[f"{T:.2f}"]["Z_coupled"]
+                    sos = self.sos_list[idx_FS][f"{T:.2f}"]["Z_sos"]
 
                     view["Z"] -= sos
                     view["Z"] *= 100.0
@@ -740,7 +740,7 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
                                    label=label)
                 ax[T].legend()
 
-                true_answer = self.sos_params[f"{T:.2f}"]["Z_coupled"]
+                true_answer = self.sos_list[idx_FS][f"{T:.2f}"]["Z_sos"]
                 if self.percent_error:
                     true_answer = 0.0
 
@@ -814,7 +814,7 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
                             label=label)
             # --------------------------------------------------------------------------------
             # REFERENCE / EXACT ANSWER
-            true_answer = self.sos_params[f"{T:.2f}"]["Z_coupled"]
+            true_answer = self.sos_list[0][f"{T:.2f}"]["Z_sos"]
             if self.percent_error:
                 true_answer = 0.0
 
-- 
2.43.0


From bc69b4d1b5d3594f093cd7b003e11066239748ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:12 +0000
Subject: [PATCH 43/51] fix: state weights of the sampling model
 under/overflowed for realistic energies at low temperatures

---
 pibronic/pimc/pimc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index c7d172a..e54d825 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -340,11 +340,11 @@ class ModelSampling(ModelClass):
 
     def compute_weight_for_each_state(self):
         """these are the weights for the oscillators associated with each state"""
-        self.state_weight = np.exp(-self.beta * (self.energy + self.delta_weight))
-        # self.state_weight /= 2. * np.prod(np.sinh((self.beta * self.omega) / 2.))
-
-        # we believe the factor of 2 on the outside cancels out in equation 49.
-        self.state_weight /= np.prod(np.sinh((self.beta * self.omega) / 2.))
+        # the factor of prod(2 * sinh(beta * omega / 2)) is common to all states and cancels in the
+        # normalization, as does a shift of the energy: the lowest energy is taken as zero so that
+        # the exponentials neither all underflow nor overflow
+        energy = self.energy + self.delta_weight
+        self.state_weight = np.exp(-self.beta * (energy - energy.min()))
 
         # normalize the weights
         self.state_weight /= self.state_weight.sum()
-- 
2.43.0


From 02d86bba61b714b07011899faa12f184df0d4863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:00 +0000
Subject: [PATCH 44/51] fix: a number of states above 999 was written with a
 thousands separator, which is read as another number

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 89bf333..c3876a3 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1209,7 +1209,7 @@ def _add_nip_to_file(vibron, file_name):
             start = find_string_in_file(memmap_file, file_path, startTarget)
             # go there
             memmap_file.seek(start)
-            s = "{:>6,d}"
+            s = "{:>6d}"
             # attempt to write 3 bytes over the 'xxx'
             try:
                 bytesWritten = memmap_file.write(s.format(nip).encode(('utf-8')))
-- 
2.43.0


From 0ee1a55d9550ec80b4071150dd6449f64c5dfb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:18 +0000
Subject: [PATCH 45/51] fix: refuse in-place loading of a model into arrays of
 other dimensions

---
 pibronic/vibronic/vibronic_model_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index 42e9223..2898f84 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -561,6 +561,9 @@ def _load_inplace_from_JSON(path, dictionary):
 
     VMK.change_dictionary_keys_from_strings_to_enum_members(input_dictionary)
 
+    # arrays of other dimensions cannot hold the model (numpy would silently broadcast a dimension of size 1)
+    assert _extract_dimensions_from_dictionary(dictionary) == _extract_dimensions_from_dictionary(input_dictionary), f"the provided arrays do not have the dimensions of the model in {path}"
+
     for key, value in dictionary.items():
         if isinstance(value, (np.ndarray, np.generic)):
             # this is a safer way of forcing the input arrays that have no corresponding key in the input_dictionary to have zero values
-- 
2.43.0


From ae5d4301c3ed2dc9ca87aed429ac1c77a464ca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:54 +0000
Subject: [PATCH 46/51] fix: a job counts as completed only if the job itself,
 not one of its steps, is

---
 pibronic/vibronic/electronic_structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index c3876a3..6d141c2 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -285,8 +285,8 @@ def wait_on_results(job_id, job_type):
         s = "{:s} script (JOBID={:d}) failed for some reason"
         raise Exception(s.format(job_type, job_id))
 
-    # needs to be completed
-    elif not ("COMPLETED" in result):
+    # needs to be completed (the first state is the job's own, the others are those of its steps)
+    elif result.split()[:1] != ["COMPLETED"]:
         raise Exception("unknown result in {:s} parsing".format(job_type))
 
     return
-- 
2.43.0


From 71e7ebfabd49120cce951aeb949b6743b67b7a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:26 +0000
Subject: [PATCH 47/51] fix: analyse results with the finite difference step
 they were calculated with

---
 pibronic/pimc/pimc.py   | 18 ++++++++++++++++++
 pibronic/stats/stats.py | 13 +++++++++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index e54d825..1189c1d 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -925,6 +925,14 @@ class BoxResultPM(BoxResult):
 
     key_list = ["s_gP", "s_gM"] + BoxResult.key_list
 
+    # the finite difference step which the samples were calculated with, None is constants.delta_beta
+    delta_beta = None
+
+    @staticmethod
+    def read_delta_beta(fileObj):
+        """ older result files don't store the step, they were calculated with the default value """
+        return float(fileObj["delta_beta"]) if "delta_beta" in fileObj.keys() else constants.delta_beta
+
     @classmethod
     def verify_result_keys_are_present(cls, path, fileObj):
         """ x """
@@ -951,6 +959,8 @@ class BoxResultPM(BoxResult):
     def __init__(self, data=None, X=None):
         """x"""
         super().__init__(data, X)
+        if data is not None:
+            self.delta_beta = getattr(data, "delta_beta", None)
         return
 
     def save_results(self, number_of_samples):
@@ -968,6 +978,7 @@ class BoxResultPM(BoxResult):
                  s_g=self.scaled_g,
                  s_gP=self.scaled_gofr_plus,
                  s_gM=self.scaled_gofr_minus,
+                 delta_beta=constants.delta_beta if self.delta_beta is None else self.delta_beta,
                  )
         return
 
@@ -978,6 +989,7 @@ class BoxResultPM(BoxResult):
         with np.load(path) as data:
             self.scaled_gofr_plus = data["s_gP"]
             self.scaled_gofr_minus = data["s_gM"]
+            self.delta_beta = self.read_delta_beta(data)
         return
 
     def load_multiple_results(self, list_of_paths, desired_number_of_samples=None):
@@ -990,6 +1002,7 @@ class BoxResultPM(BoxResult):
         # each file contributes once
         list_of_paths = list(dict.fromkeys(list_of_paths))
         list_of_bad_paths = []
+        steps = set()
 
         try:
             for path in list_of_paths:
@@ -1007,6 +1020,7 @@ class BoxResultPM(BoxResult):
                     # should verify file is not empty?
                     if self.__class__.result_keys_are_present_in(data.keys()):
                         number_of_samples += data["number_of_samples"]
+                        steps.add(self.read_delta_beta(data))
                     else:
                         list_of_bad_paths.append(path)
         except Exception as err:
@@ -1023,6 +1037,10 @@ class BoxResultPM(BoxResult):
 
         assert number_of_samples is not 0, "number of samples should have changed"
 
+        # samples of different steps cannot be combined
+        assert len(steps) == 1, "the results were calculated with different values of delta_beta {}".format(sorted(steps))
+        self.delta_beta = steps.pop()
+
         if desired_number_of_samples is None:
             desired_number_of_samples = number_of_samples
         else:
diff --git a/pibronic/stats/stats.py b/pibronic/stats/stats.py
index b7bc445..32740ed 100755
--- a/pibronic/stats/stats.py
+++ b/pibronic/stats/stats.py
@@ -194,6 +194,11 @@ def starmap_wrapper(FS, P, T, statistical_operation):
         target_file.write(json.dumps(output_dict))
 
 
+def extract_delta_beta(pimc_result):
+    """ returns the finite difference step which the samples were calculated with """
+    return constants.delta_beta if pimc_result.delta_beta is None else pimc_result.delta_beta
+
+
 def basic_statistical_analysis(temperature, pimc_result, analytic_data):
     """ takes a temperature, a BoxResult object type, and a dictionary of analytical data and calculates the basic statistical properties, Z, E, Cv and returns them in a dictionary"""
 
@@ -204,7 +209,7 @@ def basic_statistical_analysis(temperature, pimc_result, analytic_data):
             pimc_result.scaled_gofr_minus.view(),  # g-
             ]
 
-    terms = calculate_basic_property_terms(constants.delta_beta, *data)
+    terms = calculate_basic_property_terms(extract_delta_beta(pimc_result), *data)
     basic_dict = estimate_basic_properties(pimc_result.samples, temperature, *terms)
     add_harmonic_contribution(basic_dict, analytic_data["E"], analytic_data["Cv"])
 
@@ -223,7 +228,7 @@ def alpha_statistical_analysis(temperature, pimc_result, analytic_data):
             analytic_data["alpha_minus"],
             ]
 
-    terms = calculate_alpha_terms(constants.delta_beta, *data)
+    terms = calculate_alpha_terms(extract_delta_beta(pimc_result), *data)
     terms = terms[:-4]  # we don't need the last four things
     alpha_dict = estimate_basic_properties(pimc_result.samples, temperature, *terms)
     add_harmonic_contribution(alpha_dict, analytic_data["E"], analytic_data["Cv"])
@@ -289,7 +294,7 @@ def basic_jackknife_analysis(temperature, pimc_result, analytic_data):
 
     T = temperature
     X = pimc_result.samples
-    dB = constants.delta_beta
+    dB = extract_delta_beta(pimc_result)
 
     terms = calculate_basic_property_terms(dB, *data)
     jk_terms = jk.calculate_jackknife_terms(X, terms)
@@ -322,7 +327,7 @@ def alpha_jackknife_analysis(temperature, pimc_result, analytic_data):
 
     T = temperature
     X = pimc_result.samples
-    dB = constants.delta_beta
+    dB = extract_delta_beta(pimc_result)
 
     terms = calculate_alpha_terms(dB, *data)
     # we don't need the 1sym or 2sym for the jackknife terms
-- 
2.43.0


From ac07847d1a2ee2bfedcb9d30458ac1b719dacf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:03 +0000
Subject: [PATCH 48/51] fix: plots do not combine results with the reference
 values of another model

---
 pibronic/plotting/plotting.py | 38 ++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 7afcdfe..098eb27 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -20,6 +20,18 @@ from ..constants import beta
 from ..vibronic import vIO
 
 
+def load_reference(path, **hashes):
+    """ returns the reference results stored in the file
+    raises an error if they belong to another model than the one(s) identified by the hashes, just like the results of old models they must not be used """
+    with open(path, 'r') as file:
+        data = json.loads(file.read())
+
+    for name, value in hashes.items():
+        assert data.get(name) == value, f"the results in {path} do not belong to the current model (wrong {name})"
+
+    return data
+
+
 def load_analytical_original(self):
     """ generic loading function that can be used by multiple plotting classes """
 
@@ -29,8 +41,7 @@ def load_analytical_original(self):
     # load that data into each dictionary in the list
     for idx_FS, FS in enumerate(self.FS_lst):
 
-        with open(FS.path_analytic_orig, 'r') as file:
-            data = json.loads(file.read())
+        data = load_reference(FS.path_analytic_orig, hash_vib=FS.hash_vib)
 
         for T in self.lst_T[idx_FS]:
             self.analytical_orig_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
@@ -47,8 +58,7 @@ def load_analytical_sampling(self):
     # load that data into each dictionary in the list
     for idx_FS, FS in enumerate(self.FS_lst):
 
-        with open(FS.path_analytic_rho, 'r') as file:
-            data = json.loads(file.read())
+        data = load_reference(FS.path_analytic_rho, hash_vib=FS.hash_vib, hash_rho=FS.hash_rho)
 
         for T in self.lst_T[idx_FS]:
             self.analytical_rho_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
@@ -70,8 +80,7 @@ def load_sos(self, basis_size=80):
         if not os.path.isfile(path):
             continue
 
-        with open(path, 'r') as file:
-            data = json.loads(file.read())
+        data = load_reference(path, hash_vib=FS.hash_vib)
 
         for T in self.lst_T[idx_FS]:
             self.sos_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
@@ -102,8 +111,7 @@ def load_trotter_coupled(self, basis_size=80):
 
                 # check if path exists -> and if not then we should append a None?
                 try:
-                    with open(path, 'r') as file:
-                        data = json.loads(file.read())
+                    data = load_reference(path, hash_vib=FS.hash_vib)
 
                     for idx, key in enumerate(trotter_key_list):
                         val = data[f"{T:.2f}"].get(key, None)
@@ -313,15 +321,13 @@ class plot_original_Z_test(plotVirtual):
         self.analytical_orig_dict = {}
         self.analytical_rho_dict = {}
 
-        with open(FS.path_analytic_orig, 'r') as file:
-            data = json.loads(file.read())
-            for T in self.lst_T[0]:
-                self.analytical_orig_dict[f"{T:.2f}"] = data[f"{T:.2f}"]
+        data = load_reference(FS.path_analytic_orig, hash_vib=FS.hash_vib)
+        for T in self.lst_T[0]:
+            self.analytical_orig_dict[f"{T:.2f}"] = data[f"{T:.2f}"]
 
-        with open(FS.path_analytic_rho, 'r') as file:
-            data = json.loads(file.read())
-            for T in self.lst_T[0]:
-                self.analytical_rho_dict[f"{T:.2f}"] = data[f"{T:.2f}"]
+        data = load_reference(FS.path_analytic_rho, hash_vib=FS.hash_vib, hash_rho=FS.hash_rho)
+        for T in self.lst_T[0]:
+            self.analytical_rho_dict[f"{T:.2f}"] = data[f"{T:.2f}"]
 
         return
 
-- 
2.43.0


From 7f89cd2aa565501fd11d9c1e4cb6b0d0e151229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 49/51] fix: insets of the plots of individual models, their
 temperature and model

---
 pibronic/plotting/plotting.py | 121 ++++++++++++----------------------
 1 file changed, 42 insertions(+), 79 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 098eb27..0d26f48 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -549,15 +549,12 @@ class plot_original_Z_vs_diagonal_test(plot_Z_multiple_FS):
         # Add an inset to the plot!
         if self.FS_lst[0].id_data >= 10:
             from mpl_toolkits.axes_grid1.inset_locator import mark_inset
-            from mpl_toolkits.axes_grid1.inset_locator import InsetPosition
 
             # Build and manually place the inset (for the rho_1 case )
 
             # first_ax.xaxis.set_minor_formatter(LogFormatterSciNotation(minor_thresholds=(11, 10)))
 
-            ax_ins = fig.add_axes([0, 0, 1, 1], label='inset 1')
-            ip = InsetPosition(first_ax, [0.1, 0.3, 0.5, 0.6])  # [%left, %up, %width, %height]
-            ax_ins.set_axes_locator(ip)
+            ax_ins = first_ax.inset_axes([0.1, 0.3, 0.5, 0.6], label='inset 1')  # [%left, %up, %width, %height]
             # Connect the inset to its respective region
             mark_inset(first_ax, ax_ins, loc1=3, loc2=4, fc="none", ec="0.5")
 
@@ -567,45 +564,34 @@ class plot_original_Z_vs_diagonal_test(plot_Z_multiple_FS):
             ax_ins.tick_params(which='both', direction='in', pad=4)
             # ax_ins.spines['top'].set_visible(False)
 
-            # HACK CONSTANTS
-            # F_index = -1
-            idx_T = 0
-            idx_X = -1
-            T = 300.00
+            # the inset belongs to the first panel
+            T = temperatures[0]
             # dataView = self.arr[F_index, R_index, T_index, 0, :].view()
             slice_insert = np.s_[-1:-2:-1]
             # if np.any(np.isnan(dataView)):
             #     first_Finite = np.where(np.isfinite(self.arr[F_index, R_index, T_index, 0, :]))[0][-1]
             #     slice_insert = np.s_[first_Finite:first_Finite-10:-1]
             # --------------------------------------------------------------------------------
-            # Plot the first FS
-            idx_FS = 0
-            tau_values = self.generate_tau_values(T, idx_FS)
-            x = tau_values[slice_insert].view()
-            y = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z"].view()
-            yerr = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z error"].view()
-            label = labels[idx_FS].format(self.FS_lst[idx_FS].id_rho, self.lst_X[idx_FS][0])
-            ax_ins.errorbar(x, y, xerr=None, yerr=yerr,
-                            marker='o' if idx_FS == 0 else 'x',
-                            markerfacecolor="None",
-                            label=label)
-            # --------------------------------------------------------------------------------
-            # Plot the second FS
-            idx_FS = 1
-            tau_values = self.generate_tau_values(T, idx_FS)
-            x = tau_values[slice_insert].view()
-            y = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z"].view()
-            yerr = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z error"].view()
-            label = labels[idx_FS].format(self.FS_lst[idx_FS].id_rho, self.lst_X[idx_FS][0])
-            ax_ins.errorbar(x, y, xerr=None, yerr=yerr,
-                            marker='o' if idx_FS == 0 else 'x',
-                            markerfacecolor="None",
-                            label=label)
+            # Plot each FS which has results at this temperature
+            for idx_FS, FS in enumerate(self.FS_lst):
+                if T not in self.lst_T[idx_FS]:
+                    continue
+                idx_T = self.lst_T[idx_FS].index(T)
+                X = self.lst_X[idx_FS][-1]
+                idx_X = self.lst_X[idx_FS].index(X)
+                tau_values = self.generate_tau_values(T, idx_FS)
+                x = tau_values[slice_insert].view()
+                y = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z"].view()
+                yerr = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z error"].view()
+                label = labels[FS.id_rho].format(FS.id_rho, X)
+                ax_ins.errorbar(x, y, xerr=None, yerr=yerr,
+                                marker='o' if idx_FS == 0 else 'x',
+                                markerfacecolor="None",
+                                label=label)
             # --------------------------------------------------------------------------------
             # REFERENCE / EXACT ANSWER
-            true_answer = self.analytical_orig_list[0][f"{T:.2f}"]["Z_coupled"]
-            if self.percent_error:
-                true_answer = 0.0
+            idx_ref = [T in lst for lst in self.lst_T].index(True)
+            true_answer = 0.0 if self.percent_error else self.analytical_orig_list[idx_ref][f"{T:.2f}"]["Z_coupled"]
 
             ax_ins.axhline(y=true_answer, linewidth=2, color='r',
                            label='Analytically derived Z from original model'
@@ -756,17 +742,13 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
 
         # Add an inset to the plot!
         if self.FS_lst[0].id_data >= 100:
-            print("index A")
             from mpl_toolkits.axes_grid1.inset_locator import mark_inset
-            from mpl_toolkits.axes_grid1.inset_locator import InsetPosition
 
             # Build and manually place the inset (for the rho_1 case )
 
             # first_ax.xaxis.set_minor_formatter(LogFormatterSciNotation(minor_thresholds=(11, 10)))
 
-            ax_ins = fig.add_axes([0, 0, 1, 1], label='inset 1')
-            ip = InsetPosition(first_ax, [0.1, 0.3, 0.5, 0.6])  # [%left, %up, %width, %height]
-            ax_ins.set_axes_locator(ip)
+            ax_ins = first_ax.inset_axes([0.1, 0.3, 0.5, 0.6], label='inset 1')  # [%left, %up, %width, %height]
             # Connect the inset to its respective region
             mark_inset(first_ax, ax_ins, loc1=3, loc2=4, fc="none", ec="0.5")
 
@@ -776,53 +758,34 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
             ax_ins.tick_params(which='both', direction='in', pad=4)
             # ax_ins.spines['top'].set_visible(False)
 
-            # HACK CONSTANTS
-            # F_index = -1
-            idx_T = 0
-            # idx_X = 0
-            T = 300.00
+            # the inset belongs to the first panel
+            T = temperatures[0]
             # dataView = self.arr[F_index, R_index, T_index, 0, :].view()
             slice_insert = np.s_[-1:-2:-1]
             # if np.any(np.isnan(dataView)):
             #     first_Finite = np.where(np.isfinite(self.arr[F_index, R_index, T_index, 0, :]))[0][-1]
             #     slice_insert = np.s_[first_Finite:first_Finite-10:-1]
             # --------------------------------------------------------------------------------
-            # Plot the first FS
-            print("index B")
-            idx_FS = 0
-            X = int(1E4)
-            idx_X = self.lst_X[idx_FS].index(X)
-            tau_values = self.generate_tau_values(T, idx_FS)
-            x = tau_values[slice_insert].view()
-            y = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z"].view()
-            yerr = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z error"].view()
-            label = labels[idx_FS].format(self.FS_lst[idx_FS].id_rho, self.lst_X[idx_FS][idx_X])
-            ax_ins.errorbar(x, y, xerr=None, yerr=yerr,
-                            marker='o' if idx_FS == 0 else 'x',
-                            markerfacecolor="None",
-                            label=label)
-            # --------------------------------------------------------------------------------
-            # Plot the second FS
-            print(self.arr[idx_FS].shape)
-            idx_FS = 1
-            X = int(1E4)
-            idx_X = self.lst_X[idx_FS].index(X)
-            tau_values = self.generate_tau_values(T, idx_FS)
-            print(self.lst_P[idx_FS])
-            print("tau", tau_values)
-            x = tau_values[slice_insert].view()
-            y = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z"].view()
-            yerr = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z error"].view()
-            label = labels[idx_FS].format(self.FS_lst[idx_FS].id_rho, self.lst_X[idx_FS][idx_X])
-            ax_ins.errorbar(x, y, xerr=None, yerr=yerr,
-                            marker='o' if idx_FS == 0 else 'x',
-                            markerfacecolor="None",
-                            label=label)
+            # Plot each FS which has results at this temperature
+            for idx_FS, FS in enumerate(self.FS_lst):
+                if T not in self.lst_T[idx_FS]:
+                    continue
+                idx_T = self.lst_T[idx_FS].index(T)
+                X = int(1E4)
+                idx_X = self.lst_X[idx_FS].index(X)
+                tau_values = generate_tau_values(self, T, idx_FS)
+                x = tau_values[slice_insert].view()
+                y = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z"].view()
+                yerr = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z error"].view()
+                label = labels[FS.id_rho].format(FS.id_rho, X)
+                ax_ins.errorbar(x, y, xerr=None, yerr=yerr,
+                                marker='o' if idx_FS == 0 else 'x',
+                                markerfacecolor="None",
+                                label=label)
             # --------------------------------------------------------------------------------
             # REFERENCE / EXACT ANSWER
-            true_answer = self.sos_list[0][f"{T:.2f}"]["Z_sos"]
-            if self.percent_error:
-                true_answer = 0.0
+            idx_ref = [T in lst for lst in self.lst_T].index(True)
+            true_answer = 0.0 if self.percent_error else self.sos_list[idx_ref][f"{T:.2f}"]["Z_sos"]
 
             ax_ins.axhline(y=true_answer, linewidth=2, color='r',
                            label='SOS derived Z from coupled model'
-- 
2.43.0


From 740f33b299aaf9ac4f9b8af25f3f57f3f63868cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 50/51] fix: refuse models with terms which the PIMC
 calculations would ignore

---
 pibronic/pimc/pimc.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 1189c1d..2db3915 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -118,8 +118,17 @@ class ModelClass:
         model.load_model(path)
         return model
 
+    @staticmethod
+    def _refuse_ignored_terms(model, keys):
+        """ the calculations would ignore these terms, their results would be those of another model """
+        for key in keys:
+            if key in model and np.any(model[key]):
+                raise Exception(f"Support for non-zero {key.value} in PIMC calculations has not been implemented")
+
     def load_model(self, path):
         """x"""
+        self._refuse_ignored_terms(vIO.load_model_from_JSON(path), [VMK.G3, VMK.G4])
+
         # I think this fails if the list elements are multidimensional numpy arrays
         # carefully check this
         # lazy way of assuming that if one array is empty this is the first time
@@ -281,6 +290,7 @@ class ModelSampling(ModelClass):
 
     def load_model(self, filePath):
         newStates, sameModes = vIO.extract_dimensions_of_diagonal_model(path=filePath)
+        self._refuse_ignored_terms(vIO.load_diagonal_model_from_JSON(filePath), [VMK.G2, VMK.G3, VMK.G4])
 
         # replace the vibronic models state size with rho's state size
         self.param_dict['A'] = self.states = newStates
-- 
2.43.0


From bf0ad0dba4822f48d5306d588af6d32d98d3e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 51/51] fix: sequences of orthonormal matrices for plotting
 (missing argument, misplaced turning points)

---
 pibronic/vibronic/orthonormal/sequences.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index 9cb1338..e696cce 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -322,7 +322,7 @@ def generate_full_monotonic_sequence_for_plotting(order):
     p_list = list_of_turning_points(SKSM, identity)
 
     # first we generate the x pairs and save them to a file
-    x_pairs = generate_and_save_x_pairs(p_list)
+    x_pairs = generate_and_save_x_pairs(order, p_list)
     max_x = p_list[-1].x
 
     diff = difference_function(SKSM, identity)
@@ -359,14 +359,9 @@ def generate_turning_point_sequence_for_plotting(order):
 
     SKSM, identity = build_SKSM_and_identity(order)
 
-    p_list = list_of_turning_points(SKSM, identity)
-    turning_points = []
-
-    for x in np.linspace(*linspace_dims):
-        if len(p_list) > 0 and np.isclose(x, p_list[0].x):
-            turning_points.append(p_list[0].y)
-            del p_list[0]
-        turning_points.append(None)
+    # the turning points lie on the same grid, two of them can have the same x value
+    turning_point_dict = dict((p.x, p.y) for p in list_of_turning_points(SKSM, identity))
+    turning_points = [turning_point_dict.get(x, None) for x in np.linspace(*linspace_dims)]
 
     diff = difference_function(SKSM, identity)
     frobenius_norm = partial(norm, ord='fro')
-- 
2.43.0

