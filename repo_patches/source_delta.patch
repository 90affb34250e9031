From a5711ec022eeba798d9d16a73bc65c475b949f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 1/9] fix: rotational weight is the square root of the product
 of the moments of inertia

The documented partition function is proportional to sqrt(I1 I2 I3); the
code used the product itself.
---
 occuprob/partitionfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 3ca8d9b..8fa27f3 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -240,7 +240,7 @@ class RotationalPF(PartitionFunction):
             A 2D array of shape (N, M) contaning the calculated partition
             functions for each of the N minima in the given temperature range.
         """
-        moments_product = np.prod(self.moments, axis=1)[:, None]
+        moments_product = np.sqrt(np.prod(self.moments, axis=1))[:, None]
         partition_function = moments_product * np.ones_like(temperature)
         partition_function /= self.symmetry_order[:, None]
 
-- 
2.43.0


From b2f1017e9fe7744806d92a0dc48e6d67142e6de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 2/9] fix: sign of the quantum harmonic W term

W is (beta/Z) dZ/dbeta, which is -sum x coth x for the quantum oscillator.
With the wrong sign its covariance with the electronic term entered the
heat capacity with the wrong sign.
---
 occuprob/partitionfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 8fa27f3..2f4fa75 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -445,7 +445,7 @@ class QuantumHarmonicPF(PartitionFunction):
         multiplied by :math:`\\beta`:
 
         .. math::
-            \\beta W_{vib,a} = \\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
+            \\beta W_{vib,a} = -\\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
                                 \\textrm{coth}(\\beta h\\nu_{a,i}/2)
 
         Parameters
@@ -466,7 +466,7 @@ class QuantumHarmonicPF(PartitionFunction):
 
         aux_w = np.multiply(exponent, coth, where=temperature > 0,
                             out=np.zeros_like(exponent))
-        part_func_w = np.sum(aux_w, axis=1)
+        part_func_w = -np.sum(aux_w, axis=1)
 
         return part_func_w
 
-- 
2.43.0


From 15cd0f88809b96d32423a92c6671afe3c1989e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 3/9] fix: heat capacity of an empty superposition returns None

calc_heat_capacity raised TypeError where the other methods print a message
and return None.
---
 occuprob/superpositions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index d79dbcd..976d46b 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -225,6 +225,9 @@ class SuperpositionApproximation():
                                                      'calc_part_func_' + d)
                        for d in ['w', 'v']}
 
+        if part_func_d['w'] is None:
+            return None
+
         heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
                          self.calc_ensemble_average(temperature, part_func_d['w']**2) -
                          self.calc_ensemble_average(temperature, part_func_d['w'])**2)
-- 
2.43.0


From 5a951d6d1ebe6218a5468eb989b6cf9f478c3ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 4/9] fix: CLI temperature grid no longer exceeds max_temp

With a range that is not a whole number of kelvin the last temperature was
above the requested maximum.
---
 occuprob/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 91b771c..94a666d 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -147,7 +147,8 @@ def main():
         superposition = SuperpositionApproximation()
         superposition.add_partition_functions(partition_functions)
 
-        temperature = np.arange(args.min_temp, args.max_temp + 1., 1.)
+        num_steps = np.floor(args.max_temp - args.min_temp)
+        temperature = args.min_temp + np.arange(num_steps + 1.)
 
         results = {'C': superposition.calc_heat_capacity(temperature),
                    'P': superposition.calc_probability(temperature)}
-- 
2.43.0


From 215a3dfa50422dcb574a10822ca1a7582d026561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 5/9] fix: CLI plot file name only changes the extension

Every 'dat' in the path was replaced, e.g. data/x_P.dat became svga/x_P.svg.
---
 occuprob/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 94a666d..5509dd1 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -168,7 +168,7 @@ def main():
         save_results(results[key], temperature, outfile)
 
         if args.plot:
-            plotfile = outfile.replace('dat', args.plot_format.lower())
+            plotfile = outfile[:-len('dat')] + args.plot_format.lower()
             plot_results(results[key], key, temperature, plotfile, args.size)
 
 
-- 
2.43.0


From dd26379afac493250c81c4c8507260d822beeedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 6/9] fix: dictionaries with arrays of different shapes are not
 equal

compare_numpy_dictionaries broadcast arrays of different shapes against each
other, or raised ValueError.
---
 occuprob/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/occuprob/utils.py b/occuprob/utils.py
index 3c88696..742314a 100644
--- a/occuprob/utils.py
+++ b/occuprob/utils.py
@@ -103,4 +103,5 @@ def compare_numpy_dictionaries(dict1, dict2):
     if dict1.keys() != dict2.keys():
         return False
 
-    return all(np.allclose(dict1[key], dict2[key]) for key in dict1)
+    return all(np.shape(dict1[key]) == np.shape(dict2[key]) and
+               np.allclose(dict1[key], dict2[key]) for key in dict1)
-- 
2.43.0


From dbfcf43524e2aaa1bd6314b79c1c92433718ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 7/9] fix: leave out moments of inertia that vanish only up to
 rounding

The moment of a linear molecule along its axis comes out as +-1e-16 rather
than 0 for most orientations; when positive it was kept as a factor and
divided the rotational weight by about 1e8.
---
 occuprob/partitionfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 2f4fa75..e66fe42 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -217,7 +217,9 @@ class RotationalPF(PartitionFunction):
 
     def __init__(self, symmetry_order, moments):
         self.symmetry_order = symmetry_order
-        self.moments = np.where(moments > 0, moments, 1.)
+        # The vanishing moment of a linear molecule is only zero up to rounding
+        threshold = 1e-10 * np.amax(moments, axis=1, keepdims=True)
+        self.moments = np.where(moments > threshold, moments, 1.)
 
     def calc_part_func(self, temperature):
         """
-- 
2.43.0


From cbbc6475a6a610018c83c797ceee215d53c390bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:57 +0000
Subject: [PATCH 8/9] fix: keep classical frequencies in extended precision

The product of many frequencies (250 modes of 30 THz) left the range of double
precision, so that every partition function became 0 and the probabilities NaN.
---
 occuprob/partitionfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index e66fe42..ca98969 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -311,7 +311,7 @@ class ClassicalHarmonicPF(PartitionFunction):
     """
 
     def __init__(self, frequencies):
-        self.frequencies = frequencies
+        self.frequencies = frequencies.astype(np.longdouble)
         self.num_vib = frequencies.shape[1]  # Number of vibrational modes
 
     def calc_part_func(self, temperature):
-- 
2.43.0


From 5692751b05652e3e4b173a4385c16d570f342748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:17 +0000
Subject: [PATCH 9/9] fix: remove only the final .xyz extension when naming
 result files

Every '.xyz' of the path was replaced, including those of directory names, and
an input file without this extension lost the '_' before the key.
---
 occuprob/cli.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 5509dd1..ee1cc69 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -161,9 +161,12 @@ def main():
     # text file and plot the results if requested
     for key in results:
         if args.out_file:
-            outfile = args.out_file + '_' + key + '.dat'
+            prefix = args.out_file
+        elif args.in_file.endswith('.xyz'):
+            prefix = args.in_file[:-len('.xyz')]
         else:
-            outfile = args.in_file.replace('.xyz', '_') + key + '.dat'
+            prefix = args.in_file
+        outfile = prefix + '_' + key + '.dat'
 
         save_results(results[key], temperature, outfile)
 
-- 
2.43.0

