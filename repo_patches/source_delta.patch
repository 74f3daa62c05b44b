From 5896b0654ed0c254f1404351587537885f4a6bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:28 +0000
Subject: [PATCH 01/26] fix: particles imports integrators that do not exist,
 so the package cannot be imported

---
 particles/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 75db7ed..28a10a8 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -12,8 +12,8 @@ import os
 import environment
 from common import GRID, UNITS, kinematics, statistics as STATISTICS
 from common.integrators import (
-    adams_bashforth_correction, adams_moulton_solver, implicit_euler, backward_differentiation, heun_method,
-    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER, MAX_BACKWARD_DIFF_ORDER
+    adams_bashforth_correction, adams_moulton_solver, implicit_euler,
+    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER
 )
 from common.utils import Dynamic2DArray, DynamicRecArray
 from scipy.integrate import simps
-- 
2.43.0


From 2b9476cee4a8341b9a7bf0d5bfcc126d732021bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:56 +0000
Subject: [PATCH 02/26] fix: collision integral returned the predicted
 distribution instead of its rate of change

---
 particles/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 28a10a8..99beee9 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -320,8 +320,10 @@ class DistributionParticle(AbstractParticle):
             # Adams-Moulton method
             fs = list(self.data['collision_integral'][-MAX_ADAMS_MOULTON_ORDER:])
 
-            I_coll = adams_moulton_solver(y=self.distribution(ps), fs=fs,
-                                            A=AB, B=B, h=self.params.h)
+            f = self.distribution(ps)
+            prediction = adams_moulton_solver(y=f, fs=fs,
+                                              A=AB - B * f, B=B, h=self.params.h)
+            I_coll = (prediction - f) / self.params.h
 
             # # Backward differentiation method
             # ys = list(self.data['distribution'][-MAX_BACKWARD_DIFF_ORDER:])
-- 
2.43.0


From 6b49ef8de5269f73d18f8e0c71b968e84f9b9a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:56 +0000
Subject: [PATCH 03/26] fix: first order Adams-Moulton step with a non-empty
 history used the whole history

---
 common/integrators/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/integrators/__init__.py b/common/integrators/__init__.py
index 1860899..146ebc3 100644
--- a/common/integrators/__init__.py
+++ b/common/integrators/__init__.py
@@ -104,7 +104,7 @@ def adams_moulton_solver(y, fs, A, B, h, order=None):
         order = min(MAX_ADAMS_MOULTON_ORDER, len(fs) + 1)
 
     bs, divider = ADAMS_MOULTON_COEFFICIENTS[order]
-    fs = fs[-(order-1):] + [A]
+    fs = fs[len(fs) - (order - 1):] + [A]
     assert len(fs) == order, (len(fs), order)
 
     return (
-- 
2.43.0


From 5f2d183d717453317b05efe0ca8b9d50e784f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:56 +0000
Subject: [PATCH 04/26] fix: fast decay collision integral asked the reaction
 type of a tuple and crashed

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index eb87f66..2eb3f37 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -411,7 +411,7 @@ def Icoll_fast_decay(particle, ps):
 
     for index, Ff in enumerate(Ffs_temp):
         integral = particle.collision_integrals[index]
-        if utils.reaction_type(integral.reaction).DECAY: # line not necessary
+        if utils.reaction_type(integral).DECAY: # line not necessary
             sym = ''.join([item.specie.symbol for item in integral.reaction[1:]])
             for key in integral.reaction[0].specie.BR:
                 if Counter(sym) == Counter(key):
-- 
2.43.0


From ca27674642494b5475f3bc7c2bd224abae850f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:56 +0000
Subject: [PATCH 05/26] fix: four-particle integrals of a split kind crashed on
 the truth value of an array

---
 interactions/four_particle/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 186f4ef..31734da 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -188,7 +188,7 @@ class FourParticleIntegral(BoltzmannIntegral):
         fullstack = numpy.append(fullstack, slice_2)
 
         scaled_output = kinematics.scaling(self, fullstack, constant)
-        if not scaled_output:
+        if scaled_output is False:
             return kinematics.return_function(self, fullstack)
         else:
             fullstack = scaled_output
-- 
2.43.0


From c78f729df5654b803ea83fe33c970227e9e4b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:56 +0000
Subject: [PATCH 06/26] fix: number of four-particle interpolation nodes has to
 be an integer

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 2eb3f37..7321ab3 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -352,7 +352,7 @@ def interpolation_4p(interaction, ps, slice_1):
     interpolate = False
     grid = interaction.particle.grid
     if grid.MAX_MOMENTUM / (grid.MOMENTUM_SAMPLES - 1) < environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV:
-        steps = np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV))
+        steps = int(np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV)))
         interp_pos = np.searchsorted(ps, np.linspace(ps[0], ps[-1], steps))
         ps = ps[interp_pos]
         interpolate = True
-- 
2.43.0


From c76bb22a13acffca5c6e170e4185418a70313aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:56 +0000
Subject: [PATCH 07/26] fix: negative index of a DynamicRecArray addressed a
 row that was never appended

---
 common/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/common/utils.py b/common/utils.py
index 2d602ab..07e032b 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -247,10 +247,7 @@ class DynamicRecArray(object):
     def __getitem__(self, index):
         if index in self.columns:
             return self._data[index][:self.length]
-        index = int(index)
-        if index < 0:
-            index = self.length+1-index
-        return self._data[:][index]
+        return self.data[int(index)]
 
     def append(self, rec):
         if isinstance(rec, dict):
-- 
2.43.0


From ea3eba8b492c3c97aea52ece798eeb7f6dd65ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:10 +0000
Subject: [PATCH 08/26] fix: linear and cubic interpolation extrapolated from
 the interval above the argument

---
 common/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/__init__.py b/common/__init__.py
index cff3255..10d0b4f 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -310,12 +310,15 @@ def linear_interpolation(function, grid):
     def interpolation(x):
         index = numpy.searchsorted(grid, x)
 
-        if index >= len(grid) - 1:
+        if index >= len(grid):
             return function[len(grid) - 1]
 
         if x == grid[index]:
             return function[index]
 
+        # The interval containing `x` starts at the previous grid point
+        index = max(index - 1, 0)
+
         # Determine the closest grid points
         i_low = index
         x_low = grid[i_low]
@@ -336,12 +339,15 @@ def cubic_interpolation(function, grid):
     def interpolation(x):
         index = numpy.searchsorted(grid, x)
 
-        if index >= len(grid) - 1:
+        if index >= len(grid):
             return function[len(grid) - 1]
 
         if x == grid[index]:
             return function[index]
 
+        # The interval containing `x` starts at the previous grid point
+        index = max(index - 1, 0)
+
         if index == 0 or index == len(grid) - 2:
             # Determine the closest grid points
             i_low = index
-- 
2.43.0


From b0512e6635491d5799cbc24fd7d903b1ea9d9cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:10 +0000
Subject: [PATCH 09/26] fix: every Universe of a process shared one history
 table

---
 evolution.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/evolution.py b/evolution.py
index c0506af..7df2126 100755
--- a/evolution.py
+++ b/evolution.py
@@ -33,17 +33,7 @@ class Universe(object):
 
     step_monitor = None
 
-    data = utils.DynamicRecArray([
-        ['aT', 'MeV', UNITS.MeV],
-        ['T', 'MeV', UNITS.MeV],
-        ['a', None, 1],
-        ['x', 'MeV', UNITS.MeV],
-        ['t', 's', UNITS.s],
-        ['rho', 'MeV^4', UNITS.MeV**4],
-        ['N_eff', None, 1],
-        ['fraction', None, 1],
-        ['S', 'MeV^3', UNITS.MeV**3]
-    ])
+    data = None
 
     def __init__(self, folder=None, params=None, max_log_rate=2):
         """
@@ -53,6 +43,18 @@ class Universe(object):
         self.particles = []
         self.interactions = []
 
+        self.data = utils.DynamicRecArray([
+            ['aT', 'MeV', UNITS.MeV],
+            ['T', 'MeV', UNITS.MeV],
+            ['a', None, 1],
+            ['x', 'MeV', UNITS.MeV],
+            ['t', 's', UNITS.s],
+            ['rho', 'MeV^4', UNITS.MeV**4],
+            ['N_eff', None, 1],
+            ['fraction', None, 1],
+            ['S', 'MeV^3', UNITS.MeV**3]
+        ])
+
         self.clock_start = time.time()
         self.log_throttler = utils.Throttler(max_log_rate)
 
-- 
2.43.0


From 2b9d5056190f41b7ec5df04e5200060874d1b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:20 +0000
Subject: [PATCH 10/26] fix: relativistic degrees of freedom above the QCD
 scale were overwritten by the low temperature value

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 7321ab3..b32dc56 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -159,7 +159,7 @@ def decoupling_temperature_relativistic(mass, mixing_angle):
 
     if mass > CONST.lambda_QCD:
         g_star = 61.75
-    if muon_mass < mass < CONST.lambda_QCD:
+    elif muon_mass < mass < CONST.lambda_QCD:
         g_star = 14.25
     else:
         g_star = 10.75
-- 
2.43.0


From fb408a838881ff6b55aa6153e4dfb96f6d8610cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:16 +0000
Subject: [PATCH 11/26] fix: thermalised distribution of fast-decaying
 particles carried 1/(4 pi) of the created number

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index b32dc56..d51a7a4 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -400,7 +400,7 @@ def Icoll_fast_decay(particle, ps):
 
     if hasattr(particle, 'thermalization'):
         distr_ini = distr_backg + sum(F1s) * particle.params.h
-        distr_bef = distr_backg + simps(sum(F1s) * particle.grid.TEMPLATE**2, particle.grid.TEMPLATE) * particle.params.h \
+        distr_bef = distr_backg + 4 * np.pi * simps(sum(F1s) * particle.grid.TEMPLATE**2, particle.grid.TEMPLATE) * particle.params.h \
                     / (2 * np.pi * particle.conformal_mass * particle.aT)**(3/2) \
                     * np.exp(-particle.grid.TEMPLATE**2 / (2 * particle.conformal_mass * particle.aT))
 
-- 
2.43.0


From e1f1212cba0919eac1008f25efa33f773000b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:24 +0000
Subject: [PATCH 12/26] fix: boolean settings given in the environment could
 not be switched off

---
 environment.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/environment.py b/environment.py
index 730d871..224c335 100755
--- a/environment.py
+++ b/environment.py
@@ -61,7 +61,11 @@ def get(name):
     default = defaults.get(name)
     val = os.environ.get(name, default)
 
-    if default:
+    if isinstance(default, bool):
+        # Any non-empty string is true for `bool`, the spelling has to be read instead
+        if not isinstance(val, bool):
+            val = val.strip().lower() not in ('', '0', '-1', 'f', 'false', 'n', 'no', 'off')
+    elif default is not None:
         typ = type(default)
         val = typ(val)
 
-- 
2.43.0


From 5d577f63f2eee621799133886636a9b0c219110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:09 +0000
Subject: [PATCH 13/26] fix: BBN estimates could not read the last nuclear
 rates from the KAWANO table

---
 semianalytic.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/semianalytic.py b/semianalytic.py
index 640e4c1..6079888 100644
--- a/semianalytic.py
+++ b/semianalytic.py
@@ -8,10 +8,8 @@ def step_monitor(universe):
     from copy import deepcopy
 
     if not hasattr(universe, 'neutron_decoupling_parameters') and len(universe.kawano_data):
-        print([field[0] for field in universe.kawano_data.data.dtype[-6:]])
-        rates = universe.kawano_data.data[-1][
-            [field[0] for field in universe.kawano_data.data.dtype[-6:]]
-        ]
+        row = universe.kawano_data[-1]
+        rates = [row[column] for column in universe.kawano_data.columns[-6:]]
         neutron_equilibration = (sum(rates[0::2]) / sum(rates[1::2]))
         if neutron_equilibration > 10 or neutron_equilibration < 0.1:
             universe.neutron_decoupling_parameters = deepcopy(universe.params)
-- 
2.43.0


From 5cee2bf9bb94298b13a75bf62deb89287b79516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:18 +0000
Subject: [PATCH 14/26] fix: a universe with KAWANO rates but no output folder
 crashed on saving a step

---
 evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index 7df2126..25c26cd 100755
--- a/evolution.py
+++ b/evolution.py
@@ -349,7 +349,8 @@ class Universe(object):
 
             if self.log_throttler.output:
                 print("KAWANO", self.kawano_data.row_repr(-1, names=True))
-            self.kawano_log.write(self.kawano_data.row_repr(-1) + "\n")
+            if self.kawano_log:
+                self.kawano_log.write(self.kawano_data.row_repr(-1) + "\n")
 
     def init_log(self, folder=''):
         self.logfile = utils.ensure_path(os.path.join(self.folder, 'log.txt'))
-- 
2.43.0


From 06cf1809a689660d023bf2f6ac6686b95d85c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:35 +0000
Subject: [PATCH 15/26] fix: four-particle meson decays list all products on
 the right-hand side

The second particle was put on the left-hand side with the antiparticle flag it
has as a decay product, so reactions such as omega -> pi+ pi- pi0 violated charge
conservation and pions never received their production integral.
---
 library/SM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/SM.py b/library/SM.py
index 8c60e28..0b45a50 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -639,8 +639,8 @@ class interactions(object):
 
         return [CrossGeneratingInteraction(
             name="Meson decay",
-            particles=((parts[0], parts[1]), (parts[2], parts[3])),
-            antiparticles=((antiparts[0], antiparts[1]), (antiparts[2], antiparts[3])),
+            particles=((parts[0], ), (parts[1], parts[2], parts[3])),
+            antiparticles=((antiparts[0], ), (antiparts[1], antiparts[2], antiparts[3])),
             Ms=(WeakM(K=ME),),
             integral_type=FourParticleIntegral,
             kind=kind
-- 
2.43.0


From a3afd900f82650f1dad9575bdff66f26125015e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:35 +0000
Subject: [PATCH 16/26] fix: mixing angle of sterile neutrino decays to charged
 vector mesons

The angle of the last neutrino flavour was used for every charged lepton.
---
 library/NuMSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/NuMSM.py b/library/NuMSM.py
index d124624..9fde38b 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -322,7 +322,7 @@ class interactions(object):
                                                                kind=kind)
 
                         if particle.type == "vector":
-                            inters += cls.charged_vector_meson(theta=thetas[neutrino.flavour],
+                            inters += cls.charged_vector_meson(theta=thetas[lepton.flavour],
                                                                sterile=sterile,
                                                                lepton=lepton,
                                                                meson=particle,
-- 
2.43.0


From d1c3206e6344e3806d904d38c8c6ea1902fd2bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:35 +0000
Subject: [PATCH 17/26] fix: electric charge of the proton

---
 library/SM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/SM.py b/library/SM.py
index 0b45a50..bc5c680 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -82,7 +82,7 @@ class particles(object):
             'mass': 938.272046 * UNITS.MeV,
             'dof': 4,
             'majorana': False,
-            'Q': -1
+            'Q': 1
         }
         neutral_pion = {
             'name': 'Neutral pion',
-- 
2.43.0


From 8f70c18273a1c9931b6e82da4ddb72b90edf7ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:35 +0000
Subject: [PATCH 18/26] fix: left- and right-handed terms of neutrino pair
 annihilation as documented

g_L^2 goes with the products neutrino-antilepton and antineutrino-lepton, as in
the documentation of the function and in the sterile neutrino interactions.
---
 library/SM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/SM.py b/library/SM.py
index bc5c680..dc4d844 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -501,8 +501,8 @@ class interactions(object):
             antiparticles=((False, True), (False, True)),
             washout_temperature=0 * UNITS.MeV,
             Ms=(
-                WeakM(K1=4 * CONST.g_R**2, order=(0, 3, 1, 2)),
-                WeakM(K1=4 * g_L**2, order=(0, 2, 1, 3)),
+                WeakM(K1=4 * CONST.g_R**2, order=(0, 2, 1, 3)),
+                WeakM(K1=4 * g_L**2, order=(0, 3, 1, 2)),
                 WeakM(K2=4 * g_L * CONST.g_R, order=(2, 3, 0, 1)),
             ),
             integral_type=FourParticleIntegral,
-- 
2.43.0


From 1d102ba3f15ea853f114fae361e363dfa3c1ccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:11 +0000
Subject: [PATCH 19/26] fix: leptonic branching ratios of the tau

It is marked as decaying within a time step, for which kinematics.scaling looks
up the branching ratio of each channel; without the table this failed.
---
 library/SM.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/SM.py b/library/SM.py
index dc4d844..7ac9eb7 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -342,7 +342,11 @@ class particles(object):
             'Q': -1,
             'flavour': 'tau',
             'fast_decay': True,
-            'lifetime': 2.903e-13 * UNITS.s
+            'lifetime': 2.903e-13 * UNITS.s,
+            'BR': {
+                'eν_eν_τ': 0.1782,
+                'μν_μν_τ': 0.1739
+            }
         }
 
         @staticmethod
-- 
2.43.0


From 530bea38b91f4b1782e6677b5ef42ed7c8e5a7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:28 +0000
Subject: [PATCH 20/26] fix: metre in natural units is 1/(hbar c), not 1/(h c)

---
 common/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/__init__.py b/common/__init__.py
index 10d0b4f..21180dc 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -28,7 +28,7 @@ class UNITS(object):
         UNITS.TeV = UNITS.GeV * 1e3
         UNITS.s = 1e22 / 6.582119 / UNITS.MeV
         UNITS.kg = 1e27 / 1.782662 * UNITS.GeV
-        UNITS.m = 1e15 / 1.239842 / UNITS.GeV
+        UNITS.m = 1e15 / 0.1973270 / UNITS.GeV
         UNITS.N = 1e-5 / 8.19 * UNITS.GeV**2
 
         # Temperature: $10^9 K$
-- 
2.43.0


From b2ef7f557b851d399e10c3993f5a2f3e7f57ea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:34 +0000
Subject: [PATCH 21/26] fix: mesons that are also decay products of a primary
 meson decayed twice

---
 library/SM.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/SM.py b/library/SM.py
index 7ac9eb7..dfb326b 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -955,6 +955,10 @@ class interactions(object):
                                                     kind=kind)
 
         for meson in primary_mesons:
+            # This meson may already decay, as a decay product of another one
+            if already_there(inters, meson.name):
+                continue
+
             if meson.name == 'Neutral pion':
                 neutral_pion_decay(inters)
 
-- 
2.43.0


From 6d985a080bde88f3b475856854d0d6d5ea03b1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:57 +0000
Subject: [PATCH 22/26] fix: quark mixing of sterile neutrino decays to charged
 kaons

---
 library/NuMSM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/NuMSM.py b/library/NuMSM.py
index 9fde38b..1777784 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -365,7 +365,8 @@ class interactions(object):
             \end{align}
         """
 
-        CKM = SM_particles.quarks.CKM[(1, 1)]
+        # Kaons contain a strange quark
+        CKM = SM_particles.quarks.CKM[(1, 2) if meson.name == 'Charged kaon' else (1, 1)]
 
         return [CrossGeneratingInteraction(
             name="Sterile neutrino decay to charged scalar meson and lepton",
-- 
2.43.0


From d57eea4479c7f7e9d9ecc55e881fab51b362587c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:23 +0000
Subject: [PATCH 23/26] fix: bounds of each momentum in the four-particle
 integration do not depend on the previous ones

---
 interactions/four_particle/cpp/integral.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index 8390b80..b5349e0 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -613,8 +613,10 @@ std::vector<dbl> integration(
     // Determine the integration bounds
     auto reaction_type = get_reaction_type(reaction);
 
+    dbl max_1_given = max_1;
+
     // Note firstprivate() clause: those variables will be copied for each thread
-    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type) firstprivate(min_1, max_1, min_2, max_2, max_3)
+    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type, max_1_given) firstprivate(min_1, max_1, min_2, max_2, max_3)
     for (size_t i = 0; i < ps.size(); ++i) {
         dbl p0 = ps[i];
 
@@ -633,12 +635,8 @@ std::vector<dbl> integration(
             else {
                 min_1 = sqrt(min2);
             }
-            if (max_1 > 3. * min_1) {
-                max_1 = max_1;
-            }
-            else {
-                max_1 = 3. * min_1;
-            }
+            // The bound of each momentum starts from the given one, not from that of the previous momentum
+            max_1 = std::max(max_1_given, 3. * min_1);
         }
         if (reaction_type == Kinematics::CREATION) {
             if (reaction[3].specie.m == 0.) {continue; }
-- 
2.43.0


From 1e1bcbac460d9a1b79583c46db211238b3b35b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:23 +0000
Subject: [PATCH 24/26] fix: no K2 term in the collision kernel of a massless
 particle at rest

---
 interactions/four_particle/cpp/Ds.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interactions/four_particle/cpp/Ds.cpp b/interactions/four_particle/cpp/Ds.cpp
index 8b521e1..1ced268 100644
--- a/interactions/four_particle/cpp/Ds.cpp
+++ b/interactions/four_particle/cpp/Ds.cpp
@@ -278,7 +278,10 @@ dbl Db(const std::array<dbl, 4> &p, const std::array<dbl, 4> &E, const std::arra
         dbl subresult = 0.;
 
         if (i * j == 0.) {
-            subresult += m[i+j] * (E[k] * E[l] * Db1(p[1], p[2], p[3]) + sksl * Db2(p[i+j], p[k], p[l]));
+            // m[0] / E[0] of a particle at rest: 1, but 0 for a massless one
+            if (m[0] != 0.) {
+                subresult += m[i+j] * (E[k] * E[l] * Db1(p[1], p[2], p[3]) + sksl * Db2(p[i+j], p[k], p[l]));
+            }
         }
         else if (k * l == 0.) {
             subresult += m[i] * m[j] * E[k+l] * Db1(p[1], p[2], p[3]);
-- 
2.43.0


From 49efa01afb7b333f11d2e76e7cb42224edc15ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:14 +0000
Subject: [PATCH 25/26] fix: a digit was missing in the newton (1 N = 1.2316e-6
 GeV^2)

---
 common/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/__init__.py b/common/__init__.py
index 21180dc..b8bf4ea 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -29,7 +29,7 @@ class UNITS(object):
         UNITS.s = 1e22 / 6.582119 / UNITS.MeV
         UNITS.kg = 1e27 / 1.782662 * UNITS.GeV
         UNITS.m = 1e15 / 0.1973270 / UNITS.GeV
-        UNITS.N = 1e-5 / 8.19 * UNITS.GeV**2
+        UNITS.N = 1e-5 / 8.119360 * UNITS.GeV**2
 
         # Temperature: $10^9 K$
         UNITS.K9 = UNITS.MeV / 11.6045
-- 
2.43.0


From 0391927422f37bac7fd9b5091c42087a2821b19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:29 +0000
Subject: [PATCH 26/26] fix: a lepton of exactly the QCD scale took the degrees
 of freedom of low temperatures

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index d51a7a4..3f22356 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -159,7 +159,7 @@ def decoupling_temperature_relativistic(mass, mixing_angle):
 
     if mass > CONST.lambda_QCD:
         g_star = 61.75
-    elif muon_mass < mass < CONST.lambda_QCD:
+    elif mass > muon_mass:
         g_star = 14.25
     else:
         g_star = 10.75
-- 
2.43.0

