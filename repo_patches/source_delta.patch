From 890d3abc70c23609357ae534eb50503a523b6520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 01/36] fix: reading a band parameter whose value is 0 raised
 AssertionError

---
 cuprates_transport/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 5e63a84..0be4101 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -106,11 +106,11 @@ class BandStructure:
 
     def __getitem__(self, key):
         try:
-            assert self._band_params[key]
+            value = self._band_params[key]
         except KeyError:
             print(key + " is not a defined band parameter")
         else:
-            return self._band_params[key]
+            return value
 
     def get_band_param(self, key):
         return self[key]
-- 
2.43.0


From da892046309e1d8f6503af0db21b06a59b7a5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 02/36] fix: set_mu_to_doping left the Fermi surface and doping
 of another mu in place

---
 cuprates_transport/bandstructure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 0be4101..0b005c8 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -261,12 +261,13 @@ class BandStructure:
         return n_per_kz, p_per_kz
 
     def diff_doping(self, mu, p_target):
-        self._band_params["mu"] = mu
+        self["mu"] = mu
         return self.doping() - p_target
 
     def set_mu_to_doping(self, p_target, ptol=0.001):
-        self._band_params["mu"] = optimize.brentq(self.diff_doping, -10, 10,
-                                                  args=(p_target,), xtol=ptol)
+        self["mu"] = optimize.brentq(self.diff_doping, -10, 10,
+                                     args=(p_target,), xtol=ptol)
+        self.doping()
 
     def discretize_fermi_surface(self, epsilon=0):
         if self.march_square is True:
-- 
2.43.0


From e9fb516474c230266ca7e4278de984842ccb759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 03/36] fix: the mass of earlier band parameters survived a
 parameter change

---
 cuprates_transport/bandstructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 0b005c8..5a7cfe7 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -145,6 +145,7 @@ class BandStructure:
     def erase_Fermi_surface(self):
         self.kf  = None
         self.vf  = None
+        self.mass = None
         self.dkf = None
         self.dks = None
         self.dkz = None
-- 
2.43.0


From 751487b54edb190c34c8ef88d4fc17d2cdb277c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 04/36] fix: marching_square crashed when the first kz plane
 has no Fermi surface

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 5a7cfe7..74f1693 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -402,7 +402,7 @@ class BandStructure:
                     x_int = x_dump
                     y_int = y_dump
                 # Put in an array /////////////////////////////////////////////////////#
-                if i == 0 and j == 0:  # for first contour and first kz
+                if i == 0 and sum(self.number_of_points_per_kz_list) == 0:  # for very first contour
                     kxf = x_int / self.a
                     kyf = y_int / self.b
                     # self.a (and not b) because anisotropy is taken into account earlier
-- 
2.43.0


From 4b17faf6ccd454cda010cf8be38c5cd0ee699570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 05/36] fix: marching_square segment lengths ignored b for
 orthorhombic lattices

---
 cuprates_transport/bandstructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 74f1693..c19abb6 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -380,7 +380,8 @@ class BandStructure:
                     x = (contour[:, 0] / (2*self.res_xy_rough - 1) - 0.5) * 2*self.k_max[0]
                     y = (contour[:, 1] / (2*self.res_xy_rough - 1) - 0.5) * 2*self.k_max[1]
                 # path
-                ds = sqrt(np.diff(x)**2 + np.diff(y)**2)  # segment lengths
+                # (in units of 1/a, hence the a/b factor when orthorhombic)
+                ds = sqrt(np.diff(x)**2 + (np.diff(y) * self.a / self.b)**2)  # segment lengths
                 s = np.zeros_like(x)  # arrays of zeros
                 s[1:] = np.cumsum(ds)  # integrate path, s[0] = 0
                 # Store the number of k points per kz
-- 
2.43.0


From 5caf8f30cdd32a8cbf57c426779b7f67a8960998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 06/36] fix: a velocity component constant in k was not
 broadcast over the k-points

---
 cuprates_transport/bandstructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index c19abb6..73659ca 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -174,6 +174,8 @@ class BandStructure:
         for i, v in enumerate(self.v_sym):
             if v == 0:
                 self.v_sym[i] = "numpy.zeros_like(" + k_list[i] + ")"
+            elif not {kx, ky, kz} & v.free_symbols: # constant: broadcast over the k-points
+                self.v_sym[i] = "(" + str(v) + ")*numpy.ones_like(" + k_list[i] + ")"
 
         # Lambdafity //////////////////////////////////////////////////////////
         epsilon_func = sp.lambdify(self.var_sym, self.energy_sym, 'numpy')
-- 
2.43.0


From 65a9302c5118be2ef6b4e9a9bbd11e7cc78e0ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 07/36] fix: band parameters named like a sympy object (E, N,
 gamma...) were not treated as parameters

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 73659ca..dc05943 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -68,7 +68,7 @@ class BandStructure:
 
         # Create the dispersion and velocity functions
         self.band_model = band_model
-        self.energy_sym = sp.sympify(band_model)
+        self.energy_sym = sp.sympify(band_model, locals={str(sym): sp.Symbol(str(sym)) for sym in self.var_sym})
         self.energy_velocity_definition()
 
         # Discretization
-- 
2.43.0


From 6d5d7f7ef5c3f16785dc5213c328ac62704ade9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 08/36] fix: per-plane data of an earlier marching_square
 survived a marching_cube discretization

---
 cuprates_transport/bandstructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index dc05943..d500f44 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -276,6 +276,7 @@ class BandStructure:
         if self.march_square is True:
             self.kf, self.dkf = self.marching_square(epsilon)
         else:
+            self.mass, self.dks, self.dkz, self.number_of_points_per_kz_list = None, None, None, []
             self.kf, self.dkf = self.marching_cube(epsilon)
         # Compute Velocity at t = 0 on Fermi Surface
         vx, vy, vz = self.velocity_func(self.kf[0, :], self.kf[1, :], self.kf[2, :])
-- 
2.43.0


From 843efa959bbcf06cac1219321ed74ba2b9624163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 09/36] fix: bands and scattering rates shared lists and
 dictionaries with their caller

---
 cuprates_transport/bandstructure.py | 4 ++--
 cuprates_transport/scattering.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index d500f44..d7efafc 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -76,7 +76,7 @@ class BandStructure:
         # Number of subdivisions of the FBZ in units of Pi
         self.resolution = [res if res % 2 != 0 else res + 1 for res in resolution]
         # Unitless bounds of the Brillouin zone : k_x = [- k_max / a ... + k_max / a]
-        self.k_max = k_max # list
+        self.k_max = list(k_max) # list
 
         # Whether to use or not the marching square for higher symmetries
         self.march_square = march_square
@@ -123,7 +123,7 @@ class BandStructure:
         return self._band_params
 
     def _set_band_params(self, band_params):
-        self._band_params = band_params
+        self._band_params = deepcopy(band_params)
         self.erase_Fermi_surface()
     band_params = property(_get_band_params, _set_band_params)
 
diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 0723b3b..57c8a5f 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -23,7 +23,7 @@ def scattering_method(func):
 class Scattering:
     def __init__(self, scattering_models, scattering_params, **kwargs):
 
-        self.scattering_models = scattering_models
+        self.scattering_models = list(scattering_models)
         self._scattering_params = deepcopy(scattering_params)
         self.gamma_tot = np.empty(1) # [ps^-1] total scattering rate array
 
@@ -82,7 +82,7 @@ class Scattering:
         return self._scattering_params
 
     def _set_scattering_params(self, scattering_params):
-        self._scattering_params = scattering_params
+        self._scattering_params = deepcopy(scattering_params)
         # Set scattering rate model parameters as class attributes
         for param, value in self._scattering_params.items():
             setattr(self, param, value)  # Set each parameter as an attribute
-- 
2.43.0


From 6e3492acf23c4be2c3262b9cd1629bc64f25c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 10/36] fix: figMultipleFS2D replaced the filling and doping of
 the band

---
 cuprates_transport/bandstructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index d7efafc..658260f 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -571,7 +571,9 @@ class BandStructure:
         # Adding the third value line
         fig.text(0.76, 0.68, r"$" + f"{a_z:g}" + r"\pi/c$", color="#f3d36b", fontsize=18)  # k_z
         fig.text(0.88, 0.68, (np.round(doping_per_kz[2], 3)), color="#f3d36b", fontsize=18)  # p_z
+        n, p = self.n, self.p # the figure must not change them
         fig.text(0.76, 0.54, r"$p_{\rm tot}$ = " + str(np.round(self.doping(), 3)), fontsize = 18)
+        self.n, self.p = n, p
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 0), 0, colors = '#ff0000', linewidths = 3)
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, pi/self.c), 0, colors = '#ee9c54', linewidths = 3)
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 2*pi/self.c), 0, colors = '#f3d36b', linewidths = 3)
-- 
2.43.0


From 1284dd9a3f5c9ac9bf6a6fe3cb7d27099000edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 11/36] fix: changing N_time before the first run raised
 TypeError

---
 cuprates_transport/conductivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 0d818a9..70c0036 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -115,6 +115,8 @@ class Conductivity(Scattering):
         return self._N_time
     def _set_N_time(self, N_time):
         self._N_time = N_time
+        if self.time_max is None: # no run yet, see reset_time
+            return
         self.dtime = self.time_max / self._N_time
         self.time_array = np.arange(0, self.time_max, self.dtime)
         # integrand for tau_function
-- 
2.43.0


From 59cebaf8fbdb440e8bdd93e800b0c24aaaeedddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 12/36] fix: gamma_dos_func ignored its velocities and failed
 in a magnetic field

---
 cuprates_transport/scattering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 57c8a5f..3804136 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -156,7 +156,8 @@ class Scattering:
         """
         dos_max = np.max(self.bandObject.dos_k)
         # value to normalize the DOS to a quantity without units
-        return self.gamma_dos_max * (self.bandObject.dos_k / dos_max)
+        dos_k = 1 / (hbar * sqrt(vx**2 + vy**2 + vz**2))
+        return self.gamma_dos_max * (dos_k / dos_max)
 
     # @scattering_method
     # def gamma_cmfp_func(self, vx, vy, vz):
-- 
2.43.0


From 7f423d23926864d328594dab7e446fa067d855df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 13/36] fix: alpha and beta at T=0 were uninitialized or those
 of an earlier temperature

---
 cuprates_transport/conductivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 70c0036..c8f4e4e 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -278,6 +278,8 @@ class Conductivity(Scattering):
                                                   self.kft, self.vft,
                                                   self.t_o_tau)
             self.sigma = coeff_tot
+            self.alpha = np.zeros((3,3), dtype= np.float64)
+            self.beta  = np.zeros((3,3), dtype= np.float64)
         else:
             sigma_tot = 0
             alpha_tot = 0
-- 
2.43.0


From 14b0bc0958504ca4e0bf5f3c4156b34bb76b84ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 14/36] fix: ADMR total filling accumulated over scans and
 total_hole_doping stayed 0

---
 cuprates_transport/admr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 8905099..0e06eb7 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -66,9 +66,10 @@ class ADMR:
 
     #---------------------------------------------------------------------------
     def update_total_doping(self):
+        self.total_filling = 0
         for i in range(len(self.condObject_list)):
             self.total_filling += self.condObject_list[i].bandObject.n
-        self.total_hole_dopin = 1 - self.total_filling
+        self.total_hole_doping = 1 - self.total_filling
 
     def file_name_func(self):
         # To point to bandstructure parameters, we use just one band
-- 
2.43.0


From 7f76dc50fe2f54e452e8da6ad468e5bfc582c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 15/36] fix: fit candidates containing a 0 were ignored by
 compute_fitness

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index d421b6d..61b2aa0 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -205,10 +205,10 @@ class Fitness:
                 for T in self.T_list:
                     self.update_conditions(T, band, param, x[i])
 
-    def compute_fitness(self, x=np.array([0])):
+    def compute_fitness(self, x=None):
         """Compute chi2 = sum((sim[i] - data[i])**2)"""
         ## Update the params_dict with fit values
-        if x.all()!=0:
+        if x is not None:
             self.update_parameters(x)
         ## Compute sim, then diff
         diff_array = np.empty(0)
-- 
2.43.0


From e9a2a9f8b9c2c4370c42ddec2864aedbf8d91b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 16/36] fix: fitted general parameters (lattice, energy_scale,
 Bamp, T) never reached the simulation

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 61b2aa0..ee7a18d 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -120,6 +120,11 @@ class SimADMR:
             scattering_params = self.params_dict[band]["scattering_params"]
             self.admrObject.condObject_list[i].bandObject.band_params =  band_params
             self.admrObject.condObject_list[i].scattering_params = scattering_params
+            for obj, names in ((self.admrObject.condObject_list[i].bandObject, ("a", "b", "c", "energy_scale")),
+                               (self.admrObject.condObject_list[i], ("Bamp", "T"))):
+                for name in names:
+                    if name in self.params_dict[band]:
+                        setattr(obj, name, self.params_dict[band][name])
 
     def compute_rhozz(self, Btheta_norm=0):
         """Calculate the simulated rhozz from ADMR object"""
-- 
2.43.0


From af20c4ade2f0e7ae4442bac80f9ec1de6a8063c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 17/36] fix: the polar-angle grid of the multi-T fit was
 coarser than the requested step

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index ee7a18d..2d282d3 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -42,7 +42,7 @@ class FitAnglesADMR:
         Btheta_min = min(Btheta_min_list)
         Btheta_max = max(Btheta_max_list)
         Btheta_steps = min(Btheta_steps_list)
-        N = int((Btheta_max-Btheta_min) / Btheta_steps)
+        N = int(np.ceil(np.round((Btheta_max-Btheta_min) / Btheta_steps, 6))) + 1
         self.Btheta_array = np.linspace(Btheta_min, Btheta_max, N)
         return self.Bphi_array, self.Btheta_array
 
-- 
2.43.0


From 52f8ab63e94b26de48c1c4800029a623e68d7068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 18/36] fix: omegac_tau_func passed kz instead of vz to the
 scattering rate

---
 cuprates_transport/conductivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index c8f4e4e..3fab376 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -323,7 +323,7 @@ class Conductivity(Scattering):
         prefactor = hbar / (2 * pi * e * self._Bamp)
         ## Function of k
         kf0, kf1, kf2 = kf[0, :], kf[1, :], kf[2, :]
-        vf0, vf1, vf2 = vf[0, :], vf[1, :], kf[2, :]
+        vf0, vf1, vf2 = vf[0, :], vf[1, :], vf[2, :]
         inverse_omegac_tau_k = (prefactor * 2*pi*kf_perp / vf_perp / picosecond *
                                 self.tau_tot_func(kf0, kf1, kf2, vf0, vf1, vf2))
         self.omegac_tau_k = 1 / inverse_omegac_tau_k
-- 
2.43.0


From 8c6162620159d530d23d7ef80edd83e74b348cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 19/36] fix: the single-T and series fits used names that ADMR
 no longer has

---
 cuprates_transport/fitting_admr_parallel_oneT.py  | 4 ++--
 cuprates_transport/fitting_admr_series_multi_T.py | 6 +++---
 cuprates_transport/fitting_admr_series_oneT.py    | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index bff76df..6dcd6e1 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -317,7 +317,7 @@ class FittingADMRParallel:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.condObject_dict.values():
+        for iniCondObject in self.admrObject.condObject_list:
             fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
@@ -325,7 +325,7 @@ class FittingADMRParallel:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index a09cd42..4ae6b3f 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -321,11 +321,11 @@ class FittingADMR:
             fig.text(0.84,0.84, r"$T$ (data) = " + str(self.member_dict[T]["data_T"]) + " K", fontsize=14)
             fig.text(0.84,0.79, r"$T$ (sim) = " + str(self.member_dict[T]["T"]) + " K", fontsize=14)
             fig.text(0.84,0.74, r"$p$ (data) = " + "{0:.2f}".format(self.member_dict[T]["data_p"]), fontsize=14)
-            fig.text(0.84,0.69, r"$p$ (sim) = " + "{0:.3f}".format(self.admrObject_dict[T].totalHoleDoping), fontsize=14)
+            fig.text(0.84,0.69, r"$p$ (sim) = " + "{0:.3f}".format(self.admrObject_dict[T].total_hole_doping), fontsize=14)
             #############################################
 
             #############################################
-            axes.set_xlim(0, self.admrObject.Btheta_max)
+            axes.set_xlim(0, self.admrObject_dict[T].Btheta_max)
             # axes.set_ylim(1+1.2*(min_y-1),1.2*(max_y-1)+1)
             axes.tick_params(axis='x', which='major', pad=7)
             axes.tick_params(axis='y', which='major', pad=8)
@@ -383,7 +383,7 @@ class FittingADMR:
                 plt.close(fig)
 
             ## Figure Parameters //////////////////////////////////////////////////////#
-            for iniCondObject in self.admrObject_dict[T].initialCondObjectDict.values():
+            for iniCondObject in self.admrObject_dict[T].condObject_list:
                 fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index ef2c0f8..e31b861 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -231,7 +231,7 @@ class FittingADMR:
         if filename==None:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
         path = self.folder + "/" + filename + ".json"
         with open(path, 'w') as f:
             json.dump(self.member, f, indent=4)
@@ -349,7 +349,7 @@ class FittingADMR:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.initialCondObjectDict.values():
+        for iniCondObject in self.admrObject.condObject_list:
             fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
@@ -357,7 +357,7 @@ class FittingADMR:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
-- 
2.43.0


From 390724e19966dacef637589c0e669136f68f89e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 20/36] fix: the single-T fits ignored free parameters that
 live in scattering_params

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 4 ++++
 cuprates_transport/fitting_admr_series_oneT.py   | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 6dcd6e1..8bbf3f9 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -161,6 +161,8 @@ class FittingADMRParallel:
                 self.member[pars_name] = self.pars[pars_name]
             elif pars_name in self.member["band_params"].keys():
                 self.member["band_params"][pars_name] = self.pars[pars_name]
+            elif pars_name in self.member["scattering_params"].keys():
+                self.member["scattering_params"][pars_name] = self.pars[pars_name]
 
         ## Compute ADMR ------------------------------------------------------------
         self.generate_admr()
@@ -400,6 +402,8 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
             fit_object.member[pars_name] = res.x[i]
         elif pars_name in fit_object.member["band_params"].keys():
             fit_object.member["band_params"][pars_name] = res.x[i]
+        elif pars_name in fit_object.member["scattering_params"].keys():
+            fit_object.member["scattering_params"][pars_name] = res.x[i]
         print(pars_name + " : " + "{0:g}".format(res.x[i]))
     ## Save BEST member to JSON
     fit_object.save_member_to_json(filename=filename)
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index e31b861..21c5158 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -34,6 +34,8 @@ class FittingADMR:
                 self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
             elif param_name in self.init_member["band_params"].keys():
                 self.pars.add(param_name, value = self.init_member["band_params"][param_name], min = param_range[0], max = param_range[-1])
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.pars.add(param_name, value = self.init_member["scattering_params"][param_name], min = param_range[0], max = param_range[-1])
         self.method      = method # "shgo", "differential_evolution", "leastsq"
         ## Differential evolution
         self.population  = population
@@ -164,6 +166,8 @@ class FittingADMR:
                 self.member[param_name] = self.pars[param_name].value
             elif param_name in self.init_member["band_params"].keys():
                 self.member["band_params"][param_name] = self.pars[param_name].value
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.member["scattering_params"][param_name] = self.pars[param_name].value
             print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
 
         ## Compute ADMR ------------------------------------------------------------
@@ -213,6 +217,8 @@ class FittingADMR:
                 self.member[param_name] = out.params[param_name].value
             elif param_name in self.init_member["band_params"].keys():
                 self.member["band_params"][param_name] = out.params[param_name].value
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.member["scattering_params"][param_name] = out.params[param_name].value
 
         ## Save BEST member to JSON
         self.save_member_to_json(filename=filename)
-- 
2.43.0


From 744285f242f11fc73d6a9d05fe142e2241a83864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 21/36] fix: the series multi-T fit could not be built with
 scattering_params nor fit them

---
 cuprates_transport/fitting_admr_series_multi_T.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 4ae6b3f..dcce2dc 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -39,6 +39,8 @@ class FittingADMR:
                 self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
             elif param_name in self.init_member["band_params"].keys():
                 self.pars.add(param_name, value = self.init_member["band_params"][param_name], min = param_range[0], max = param_range[-1])
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.pars.add(param_name, value = self.init_member["scattering_params"][param_name], min = param_range[0], max = param_range[-1])
         self.method      = method # "shgo", "differential_evolution", "leastsq"
 
         ## Create a dictionnary member that contains dictionnaries for each temperatures
@@ -47,7 +49,7 @@ class FittingADMR:
             self.member_dict[T] = deepcopy(init_member)
             self.member_dict[T]["data_T"] = T
         for param_name, param_value in init_member.items(): # then break the dictionaries of temperatures in member
-            if type(param_value)==dict and param_name!="band_params":
+            if type(param_value)==dict and param_name not in ("band_params", "scattering_params"):
                 for T in self.data_T_list:
                     self.member_dict[T][param_name] = init_member[param_name][T]
 
@@ -199,6 +201,8 @@ class FittingADMR:
                     self.member_dict[T][param_name] = self.pars[param_name].value
                 elif param_name in self.init_member["band_params"].keys():
                     self.member_dict[T]["band_params"][param_name] = self.pars[param_name].value
+                elif param_name in self.init_member["scattering_params"].keys():
+                    self.member_dict[T]["scattering_params"][param_name] = self.pars[param_name].value
 
         # Print params
         for param_name in self.ranges_dict.keys():
@@ -269,6 +273,8 @@ class FittingADMR:
                     self.member_dict[T][param_name] = out.params[param_name].value
                 elif param_name in self.init_member["band_params"].keys():
                     self.member_dict[T]["band_params"][param_name] = out.params[param_name].value
+                elif param_name in self.init_member["scattering_params"].keys():
+                    self.member_dict[T]["scattering_params"][param_name] = out.params[param_name].value
 
         ## Save BEST member to JSON
         self.save_member_to_json(filename=filename)
-- 
2.43.0


From edeb2fcf3757bc63f57f7e86744d21e07c4b74c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 22/36] fix: a series multi-T member loaded from JSON had
 string temperatures and was unusable

---
 cuprates_transport/fitting_admr_series_multi_T.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index dcce2dc..6a9e0d6 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -285,7 +285,8 @@ class FittingADMR:
 
     def load_member_from_json(self):
         with open(self.folder + "/" + self.json_name, "r") as f:
-            self.member_dict = json.load(f)
+            member_dict = json.load(f)
+        self.member_dict = {T: member_dict[str(T)] for T in self.data_T_list} # JSON keys are strings
 
 
     def save_member_to_json(self, filename=None):
-- 
2.43.0


From 98b20f8af7cef079879cb3587c31c77e70ee766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 23/36] fix: the series fits wrote to the filesystem root by
 default

---
 cuprates_transport/fitting_admr_series_multi_T.py | 2 +-
 cuprates_transport/fitting_admr_series_oneT.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 6a9e0d6..40e4a7f 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -16,7 +16,7 @@ from cuprates_transport.conductivity import Conductivity
 
 class FittingADMR:
     def __init__(self, init_member, ranges_dict, data_dict, pipi_FSR=False,
-                 folder="",
+                 folder=".",
                  method="differential_evolution",
                  population=100, N_generation=20, mutation_s=0.1, crossing_p=0.9,
                  normalized_data=True,
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 21c5158..a305778 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -15,7 +15,7 @@ from cuprates_transport.conductivity import Conductivity
 
 class FittingADMR:
     def __init__(self, init_member, ranges_dict, data_dict, pipi_FSR=False,
-                 folder="",
+                 folder=".",
                  method="differential_evolution",
                  population=100, N_generation=20, mutation_s=0.1, crossing_p=0.9,
                  normalized_data=True,
-- 
2.43.0


From 877fd7aace749fc171e921d2be751a13e1c826cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:48 +0000
Subject: [PATCH 24/36] fix: ADMR keeps its own list of conductivity objects

---
 cuprates_transport/admr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 0e06eb7..3fce056 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -12,7 +12,7 @@ class ADMR:
                  Btheta_step=5, Btheta_norm=0, Bphi_array=[0, 15, 30, 45],
                  show_progress=True, **kwargs):
         # Band dictionary
-        self.condObject_list = condObject_list
+        self.condObject_list = list(condObject_list)
         self.band_names = []
         for i in range(len(self.condObject_list)):
             self.band_names.append(condObject_list[i].bandObject.band_name)
-- 
2.43.0


From 5577b65bdfb65a2da9c49ba66485573a3f98dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:03 +0000
Subject: [PATCH 25/36] fix: single-temperature fits keep their own bounds and
 data dictionaries

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 4 ++--
 cuprates_transport/fitting_admr_series_oneT.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 8bbf3f9..86f61f0 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -24,8 +24,8 @@ class FittingADMRParallel:
         ## Initialize
         self.init_member = deepcopy(init_member) # contains all the parameters to calculate ADMR
         self.member      = deepcopy(init_member) # contains all the parameters to calculate ADMR
-        self.bounds_dict = bounds_dict
-        self.data_dict   = data_dict
+        self.bounds_dict = deepcopy(bounds_dict)
+        self.data_dict   = deepcopy(data_dict)
         self.init_time   = time.time()
         self.popsize     = popsize # the popsize for the differential evolution
         self.folder      = folder
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index a305778..c2ea5a1 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -23,8 +23,8 @@ class FittingADMR:
         ## Initialize
         self.init_member = deepcopy(init_member)
         self.member      = deepcopy(init_member)
-        self.ranges_dict = ranges_dict
-        self.data_dict   = data_dict
+        self.ranges_dict = deepcopy(ranges_dict)
+        self.data_dict   = deepcopy(data_dict)
         self.folder      = folder
         self.normalized_data = normalized_data
         self.pipi_FSR    = pipi_FSR
-- 
2.43.0


From 3652ec370f2c7e5ca334e55d20b43f0e4ae65ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 26/36] fix: the polar angles of an ADMR scan could run past
 their maximum

np.arange(min, max + step, step) ends beyond max when the step does not
divide the range (0..110 in steps of 20 gave 120), and now and then
because of rounding when it does.
---
 cuprates_transport/admr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 3fce056..d5dd619 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -22,7 +22,8 @@ class ADMR:
         self.Btheta_max   = Btheta_max # in degrees
         self.Btheta_step  = Btheta_step # in degrees
         self.Btheta_norm = Btheta_norm # in degrees, rzz = rhozz / rhozz ( Btheta_norm )
-        self.Btheta_array = np.arange(self.Btheta_min, self.Btheta_max + self.Btheta_step, self.Btheta_step)
+        N_theta = int(np.floor(np.round((self.Btheta_max - self.Btheta_min) / self.Btheta_step, 6))) + 1
+        self.Btheta_array = self.Btheta_min + self.Btheta_step * np.arange(N_theta)
         self.Bphi_array = np.array(Bphi_array)
 
         # Resistivity array rho_zz
-- 
2.43.0


From f80b4efa33a956586f81056944b086da31ceb7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 27/36] fix: the angle grid of the single-T and series fits
 changed from one evaluation to the next

np.arange(min, max + step, step) ran past the maximum, and since the grid
is rebuilt from its own limits and step, rounding made it grow (or lose
its last angle at the cut) after a first evaluation.
---
 cuprates_transport/fitting_admr_parallel_oneT.py  | 8 ++++----
 cuprates_transport/fitting_admr_series_multi_T.py | 8 ++++----
 cuprates_transport/fitting_admr_series_oneT.py    | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 86f61f0..aee738f 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -104,9 +104,9 @@ class FittingADMRParallel:
 
     def load_Btheta_data(self):
         """Creates the theta angles at the selected temperatures and phi"""
-        Btheta_array = np.arange(self.member["Btheta_min"],
-                                 self.member["Btheta_max"] + self.member["Btheta_step"],
-                                 self.member["Btheta_step"])
+        N_theta = int(np.floor(np.round((self.member["Btheta_max"] - self.member["Btheta_min"])
+                                       / self.member["Btheta_step"], 6))) + 1
+        Btheta_array = self.member["Btheta_min"] + self.member["Btheta_step"] * np.arange(N_theta)
         ## Create Bphi
         self.load_Bphi_data()
         # Cut Btheta_array to theta_cut
@@ -115,7 +115,7 @@ class FittingADMRParallel:
             Btheta_cut_array[i] = self.data_dict[self.member["data_T"], phi][3]
         Btheta_cut_min = np.min(Btheta_cut_array)  # minimum cut for Btheta_array
         # New Btheta_array with cut off if necessary
-        self.Btheta_array = Btheta_array[Btheta_array <= Btheta_cut_min]
+        self.Btheta_array = Btheta_array[np.round(Btheta_array, 6) <= Btheta_cut_min]
 
 
     def load_and_interp_data(self):
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 40e4a7f..32655b1 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -117,9 +117,9 @@ class FittingADMR:
         ## Loop over all temperatures
         for T in self.data_T_list:
             ## Create Initial Btheta
-            Btheta_array = np.arange(self.member_dict[T]["Btheta_min"],
-                                     self.member_dict[T]["Btheta_max"] + self.member_dict[T]["Btheta_step"],
-                                     self.member_dict[T]["Btheta_step"])
+            N_theta = int(np.floor(np.round((self.member_dict[T]["Btheta_max"] - self.member_dict[T]["Btheta_min"])
+                                           / self.member_dict[T]["Btheta_step"], 6))) + 1
+            Btheta_array = self.member_dict[T]["Btheta_min"] + self.member_dict[T]["Btheta_step"] * np.arange(N_theta)
             ## Create Bphi
             self.load_Bphi_data()
             # Cut Btheta_array to theta_cut
@@ -128,7 +128,7 @@ class FittingADMR:
                 Btheta_cut_array[i] = self.data_dict[T, phi][3]
             Btheta_cut_min = np.min(Btheta_cut_array)  # minimum cut for Btheta_array
             # New Btheta_array with cut off if necessary
-            self.Btheta_dict[T] = Btheta_array[Btheta_array <= Btheta_cut_min]
+            self.Btheta_dict[T] = Btheta_array[np.round(Btheta_array, 6) <= Btheta_cut_min]
 
 
     def load_and_interp_data(self):
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index c2ea5a1..44c90c5 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -94,9 +94,9 @@ class FittingADMR:
 
     def load_Btheta_data(self):
         ## Create Initial Btheta
-        Btheta_array = np.arange(self.member["Btheta_min"],
-                                 self.member["Btheta_max"] + self.member["Btheta_step"],
-                                 self.member["Btheta_step"])
+        N_theta = int(np.floor(np.round((self.member["Btheta_max"] - self.member["Btheta_min"])
+                                       / self.member["Btheta_step"], 6))) + 1
+        Btheta_array = self.member["Btheta_min"] + self.member["Btheta_step"] * np.arange(N_theta)
         ## Create Bphi
         self.load_Bphi_data()
 
@@ -107,7 +107,7 @@ class FittingADMR:
         Btheta_cut_min = np.min(Btheta_cut_array)  # minimum cut for Btheta_array
 
         # New Btheta_array with cut off if necessary
-        self.Btheta_array = Btheta_array[Btheta_array <= Btheta_cut_min]
+        self.Btheta_array = Btheta_array[np.round(Btheta_array, 6) <= Btheta_cut_min]
 
 
     def load_and_interp_data(self):
-- 
2.43.0


From c53fea0fc0eb6ab839da03eef54055aad0995709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 28/36] fix: temperatures given the same parameter dictionary
 shared their fitted parameters

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 2d282d3..126e411 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -143,7 +143,10 @@ class SimADMR:
 class Fitness:
     def __init__(self, data_dict, params_dict, bounds_dict, normalized_data=True):
         ## Initialize
-        self.params_dict = deepcopy(params_dict) # contains all the parameters to calculate ADMR
+        ## contains all the parameters to calculate ADMR (own copy for each temperature
+        ## and band, as the same dictionary may be given for several of them)
+        self.params_dict = {T: {band: deepcopy(params) for band, params in bands.items()}
+                            for T, bands in params_dict.items()}
         self.bounds_dict = deepcopy(bounds_dict)
         self.data_dict   = deepcopy(data_dict)
         self.T_list = [T for T in self.bounds_dict.keys() if T!="all"]
-- 
2.43.0


From 8a15ed65340a70af9971a3e775b6e9e0626eced1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 29/36] fix: loading a saved member left the band object of the
 previous settings

---
 cuprates_transport/fitting_admr_parallel_oneT.py  | 3 +++
 cuprates_transport/fitting_admr_series_multi_T.py | 3 +++
 cuprates_transport/fitting_admr_series_oneT.py    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index aee738f..02c6cb8 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -200,6 +200,9 @@ class FittingADMRParallel:
     def load_member_from_json(self):
         with open(self.folder + "/" + self.json_name, "r") as f:
             self.member = json.load(f)
+        ## The band follows the loaded member
+        self.bandObject = BandStructure(**self.member, parallel=False)
+        self.bandObject.march_square = True
 
 
     def save_member_to_json(self, filename=None):
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 32655b1..72b8863 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -287,6 +287,9 @@ class FittingADMR:
         with open(self.folder + "/" + self.json_name, "r") as f:
             member_dict = json.load(f)
         self.member_dict = {T: member_dict[str(T)] for T in self.data_T_list} # JSON keys are strings
+        ## The band follows the loaded member
+        self.bandObject = BandStructure(**self.member_dict[self.data_T_list[0]])
+        self.bandObject.march_square = True
 
 
     def save_member_to_json(self, filename=None):
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 44c90c5..a778c83 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -230,6 +230,9 @@ class FittingADMR:
     def load_member_from_json(self):
         with open(self.folder + "/" + self.json_name, "r") as f:
             self.member = json.load(f)
+        ## The band follows the loaded member
+        self.bandObject = BandStructure(**self.member)
+        self.bandObject.march_square = True
 
 
     def save_member_to_json(self, filename=None):
-- 
2.43.0


From 9c313c3bd6dc2a03f587d99c6490aba095649472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:03 +0000
Subject: [PATCH 30/36] fix: per-temperature free parameters of the series fit
 could not be declared at a non-integer temperature

---
 cuprates_transport/fitting_admr_series_multi_T.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 72b8863..42044dd 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -34,7 +34,7 @@ class FittingADMR:
         for param_name, param_range in self.ranges_dict.items():
             if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
                 for T in self.data_T_list:
-                    self.pars.add(param_name + "_" + str(T), value = self.init_member[param_name][T], min = param_range[T][0], max = param_range[T][-1])
+                    self.pars.add(param_name + "_" + str(T).replace(".", "p"), value = self.init_member[param_name][T], min = param_range[T][0], max = param_range[T][-1])
             elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
                 self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
             elif param_name in self.init_member["band_params"].keys():
@@ -196,7 +196,7 @@ class FittingADMR:
         for param_name in self.ranges_dict.keys():
             for T in self.data_T_list:
                 if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
-                    self.member_dict[T][param_name] = self.pars[param_name + "_" + str(T)].value
+                    self.member_dict[T][param_name] = self.pars[param_name + "_" + str(T).replace(".", "p")].value
                 elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
                     self.member_dict[T][param_name] = self.pars[param_name].value
                 elif param_name in self.init_member["band_params"].keys():
@@ -208,7 +208,7 @@ class FittingADMR:
         for param_name in self.ranges_dict.keys():
             if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
                         for T in self.data_T_list:
-                            print(param_name + "_" + str(T) + " : " + "{0:g}".format(self.pars[param_name + "_" + str(T)].value))
+                            print(param_name + "_" + str(T) + " : " + "{0:g}".format(self.pars[param_name + "_" + str(T).replace(".", "p")].value))
             elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
                         print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
             elif param_name in self.init_member["band_params"].keys():
@@ -268,7 +268,7 @@ class FittingADMR:
         for param_name in self.ranges_dict.keys():
             for T in self.data_T_list:
                 if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
-                    self.member_dict[T][param_name] = out.params[param_name + "_" + str(T)].value
+                    self.member_dict[T][param_name] = out.params[param_name + "_" + str(T).replace(".", "p")].value
                 elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
                     self.member_dict[T][param_name] = out.params[param_name].value
                 elif param_name in self.init_member["band_params"].keys():
-- 
2.43.0


From 7a9548041c0d4436d27c039217eff3eb8187cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 31/36] fix: omega_c*tau of a marching-cubes surface (unused
 dks is None there)

---
 cuprates_transport/conductivity.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 3fab376..a5e414b 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -315,7 +315,6 @@ class Conductivity(Scattering):
             return 0
 
     def omegac_tau_func(self):
-        dks = self.bandObject.dks / Angstrom # in m^-1
         kf = self.bandObject.kf
         vf = self.bandObject.vf # in m / s
         kf_perp = sqrt(kf[0, :]**2 + kf[1, :]**2) / Angstrom  # kf perp to B in m
-- 
2.43.0


From 1fec45837e327530fb5f0c37b1628297d796ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 32/36] fix: omega_c*tau without a magnetic field (division by
 zero)

---
 cuprates_transport/conductivity.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index a5e414b..8b47569 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -319,13 +319,12 @@ class Conductivity(Scattering):
         vf = self.bandObject.vf # in m / s
         kf_perp = sqrt(kf[0, :]**2 + kf[1, :]**2) / Angstrom  # kf perp to B in m
         vf_perp = sqrt(vf[0, :]**2 + vf[1, :]**2)  # vf perp to B, in m / s
-        prefactor = hbar / (2 * pi * e * self._Bamp)
+        prefactor = 2 * pi * e * self._Bamp / hbar
         ## Function of k
         kf0, kf1, kf2 = kf[0, :], kf[1, :], kf[2, :]
         vf0, vf1, vf2 = vf[0, :], vf[1, :], vf[2, :]
-        inverse_omegac_tau_k = (prefactor * 2*pi*kf_perp / vf_perp / picosecond *
-                                self.tau_tot_func(kf0, kf1, kf2, vf0, vf1, vf2))
-        self.omegac_tau_k = 1 / inverse_omegac_tau_k
+        self.omegac_tau_k = (prefactor / (2*pi*kf_perp) * vf_perp * picosecond /
+                             self.tau_tot_func(kf0, kf1, kf2, vf0, vf1, vf2))
         # ## Integrated over the Fermi surface
         # inverse_omegac_tau = np.sum(prefactor * dks / vf_perp / (picosecond * self.tau_tot_func(kf[0, :], kf[1, :], kf[2, :], vf[0, :], vf[1, :], vf[2, :]))) / self.bandObject.res_z  # divide by the number of kz to average over all kz
         # self.omegac_tau = 1 / inverse_omegac_tau
-- 
2.43.0


From 67b2c5f2b1120b22901a88d062ccd44674791ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 33/36] fix: cyclotron mass averages over the planes of the
 surface, not of the next one

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 658260f..ef77f85 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -222,7 +222,7 @@ class BandStructure:
             exit("ERROR: self.dks contains NaN. Are you using marching square?")
         vf = self.vf # in m / s
         vf_perp = sqrt(vf[0, :]**2 + vf[1, :]**2)  # vf perp to B, in m / s
-        prefactor = hbar / (2 * pi) / self.resolution[2] # divide by the number of kz to average over all kz
+        prefactor = hbar / (2 * pi) / len(self.number_of_points_per_kz_list) # divide by the number of kz to average over all kz
         self.mass = prefactor * np.sum(dks / vf_perp) / m0
 
 
-- 
2.43.0


From 9931e283ccbb197c88ecc3ae6fc8f810ff5f3716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 34/36] fix: plane-by-plane discretisation of bands without
 four-fold symmetry when a = b (points were rotated copies, off the contour)

---
 cuprates_transport/bandstructure.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index ef77f85..af13e85 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -348,6 +348,25 @@ class BandStructure:
         kf = verts.transpose()
         return kf, dkf
 
+    def is_tetragonal(self):
+        """
+        True if a quarter of the (kx, ky) plane is enough to know the bands: the
+        zone and the energies are the same after a rotation by pi/2 around kz
+        """
+        if self.a != self.b or self.k_max[0] != self.k_max[1]:
+            return False
+        kx, ky = np.meshgrid(np.linspace(0, self.k_max[0] / self.a, 21),
+                             np.linspace(0, self.k_max[1] / self.b, 21), indexing='ij')
+        for kz in np.linspace(-self.k_max[2] / self.c, self.k_max[2] / self.c, 5):
+            energies = self.energy_func(kx, ky, kz)
+            kx_rot, ky_rot = kx, ky
+            for i in range(3):
+                kx_rot, ky_rot = -ky_rot, kx_rot
+                if not np.allclose(self.energy_func(kx_rot, ky_rot, kz), energies,
+                                   rtol=0, atol=1e-6 * np.max(np.abs(energies))):
+                    return False
+        return True
+
     def marching_square(self, epsilon=0):
         """
         Marching square algorithm used to discretize the Fermi surface per slices
@@ -356,7 +375,8 @@ class BandStructure:
         """
         # Initialize kx and ky arrays
         # res_xy_rough: make denser rough meshgrid to interpolate after
-        if self.a == self.b:  # tetragonal case
+        tetragonal = self.is_tetragonal()
+        if tetragonal:
             kx_a = np.linspace(0, self.k_max[0] / self.a, self.res_xy_rough)
             ky_a = np.linspace(0, self.k_max[1] / self.b, self.res_xy_rough)
         else:  # orthorhombic
@@ -376,7 +396,7 @@ class BandStructure:
             for i, contour in enumerate(contours):
                 # Contour come in units proportionnal to size of meshgrid
                 # one want to scale to units of kx and ky
-                if self.a == self.b:
+                if tetragonal:
                     x = contour[:, 0] / (self.res_xy_rough - 1) * self.k_max[0]
                     y = contour[:, 1] / (self.res_xy_rough - 1) * self.k_max[1]
                 else:
@@ -395,7 +415,7 @@ class BandStructure:
                 dks = (s_int[1]- s_int[0]) / self.a  # dk path
                 x_int = np.interp(s_int, s, x)[:-1]
                 y_int = np.interp(s_int, s, y)[:-1]
-                if self.a == self.b:
+                if tetragonal:
                     # For tetragonal symmetry, rotate the contour to get the entire Fermi surface
                     x_dump = x_int
                     y_dump = y_int
@@ -421,7 +441,7 @@ class BandStructure:
                     dkf = np.append(dkf, dks * dkz * np.ones_like(x_int))
                     self.dks = np.append(self.dks, dks * np.ones_like(x_int))
                     self.dkz = np.append(self.dkz, dkz * np.ones_like(x_int))
-            if self.a == self.b:
+            if tetragonal:
                 # discretize one fourth of FS, therefore need * 4
                 self.number_of_points_per_kz_list.append(4 * number_of_points_per_kz)
             else:
-- 
2.43.0


From 7ed5a4606048343d3cad8d282f0e212f736aa2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 35/36] fix: series multi-temperature fit kept the caller's
 list of temperatures

---
 cuprates_transport/fitting_admr_series_multi_T.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 42044dd..1a0bea7 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -25,7 +25,7 @@ class FittingADMR:
         self.init_member = deepcopy(init_member)
         self.ranges_dict = deepcopy(ranges_dict)
         self.data_dict   = deepcopy(data_dict)
-        self.data_T_list = init_member["data_T"]
+        self.data_T_list = list(init_member["data_T"])
         self.folder      = folder
         self.normalized_data = normalized_data
         self.pipi_FSR    = pipi_FSR
-- 
2.43.0


From 594dee74b804e9ce56253acded8e359409c0282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 36/36] fix: SimADMR kept the caller's angle arrays

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 126e411..bd08a8e 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -91,8 +91,8 @@ class SimADMR:
     def __init__(self, params_dict, Bphi_array, Btheta_array):
         self._params_dict = deepcopy(params_dict)
         self.bands_list = [key for key in self.params_dict.keys()]
-        self.Bphi_array = Bphi_array
-        self.Btheta_array = Btheta_array
+        self.Bphi_array = np.array(Bphi_array)
+        self.Btheta_array = np.array(Btheta_array)
         self.rhozz_sim_matrix  = None
         self.rzz_sim_matrix    = None
 
-- 
2.43.0

