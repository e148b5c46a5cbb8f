From 78225916712a48200934519117f2a337878d6345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:21 +0000
Subject: [PATCH 001/146] fix: OrderedCollection.replace() by index after a
 removal or with a negative index

---
 py_gnome/gnome/utilities/orderedcollection.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/utilities/orderedcollection.py b/py_gnome/gnome/utilities/orderedcollection.py
index 0bfc136..29489b5 100644
--- a/py_gnome/gnome/utilities/orderedcollection.py
+++ b/py_gnome/gnome/utilities/orderedcollection.py
@@ -137,8 +137,7 @@ class OrderedCollection(object):
                             f'expected {self.dtype}, got {type(new_elem)}')
 
         if isinstance(ident, int):
-            l__key = self._s_id(self._elems[ident])
-            idx = ident
+            l__key = self._s_id(self.get(ident))
         else:
             if ident in self._d_index:
                 l__key = ident
@@ -146,7 +145,7 @@ class OrderedCollection(object):
                 raise KeyError('Cannot find object by this "id" in '
                                'OrderedCollection')
 
-            idx = self._d_index[l__key]
+        idx = self._d_index[l__key]
 
         # found existing object
         del self._d_index[l__key]
-- 
2.43.0


From 9ce52945da780266cb615d1b03c21cacedc64657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:21 +0000
Subject: [PATCH 002/146] fix: OrderedCollection slices with negative or out of
 range bounds behave as for lists

---
 py_gnome/gnome/utilities/orderedcollection.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/py_gnome/gnome/utilities/orderedcollection.py b/py_gnome/gnome/utilities/orderedcollection.py
index 29489b5..481d8c1 100644
--- a/py_gnome/gnome/utilities/orderedcollection.py
+++ b/py_gnome/gnome/utilities/orderedcollection.py
@@ -201,10 +201,7 @@ class OrderedCollection(object):
 
     def _slice_attr(self, ident):
         'support for slice operations like a list'
-        start = (ident.start, 0)[ident.start is None]
-        stop = (ident.stop, len(self))[ident.stop is None]
-        step = (ident.step, 1)[ident.step is None]
-        return (start, stop, step)
+        return ident.indices(len(self))
 
     def __getitem__(self, ident):
         'slicing works just like it does for lists'
-- 
2.43.0


From c78bde8eec4038c101824bb2e78bfc10b3530960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:05 +0000
Subject: [PATCH 003/146] fix: land check on the coarse rasters missed land
 that the path of an element crosses

---
 py_gnome/gnome/cy_gnome/cy_land_check.pyx | 36 ++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/cy_gnome/cy_land_check.pyx b/py_gnome/gnome/cy_gnome/cy_land_check.pyx
index 847ad1d..02cb868 100644
--- a/py_gnome/gnome/cy_gnome/cy_land_check.pyx
+++ b/py_gnome/gnome/cy_gnome/cy_land_check.pyx
@@ -171,6 +171,30 @@ cdef bool c_find_first_pixel(uint8_t* grid,
 
 
 
+cdef bool c_land_in_box(uint8_t* grid,
+                        int32_t m,
+                        int32_t n,
+                        int32_t x0,
+                        int32_t y0,
+                        int32_t x1,
+                        int32_t y1,
+                        ):
+    """
+    returns True if any pixel of the box spanned by the two points is land
+
+    Used on the coarse grids: the line between two coarse pixels does not
+    touch every coarse pixel that the line between the actual pixels goes
+    through, but that line can not leave the box.
+    """
+    cdef int32_t i, j
+
+    for i in range(max(min(x0, x1), 0), min(max(x0, x1), m - 1) + 1):
+        for j in range(max(min(y0, y1), 0), min(max(y0, y1), n - 1) + 1):
+            if grid[i * n + j] != 0:
+                return True
+    return False
+
+
 def find_first_pixel(grid, pt1, pt2):
     """
     This finds the first non-zero pixel that is encountered when following
@@ -339,7 +363,17 @@ def check_land_layers(grid_layers,
                 coarse_end[0] = div(end_positions[i,0], grid_ratios[layer]).quot
                 coarse_end[1] = div(end_positions[i,1], grid_ratios[layer]).quot
                 cur_ratio = grid_ratios[layer]
-                did_hit = c_find_first_pixel(dataptrs[layer],
+                if layer < num_ratios - 1:
+                    did_hit = c_land_in_box(dataptrs[layer],
+                                            widths[layer],
+                                            heights[layer],
+                                            coarse_pos[0],
+                                            coarse_pos[1],
+                                            coarse_end[0],
+                                            coarse_end[1],
+                                            )
+                else:
+                    did_hit = c_find_first_pixel(dataptrs[layer],
                                          widths[layer],
                                          heights[layer],
                                          coarse_pos[0],
-- 
2.43.0


From 3f587a055ee20989f42d3800f8e1d81eddc8d07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:32 +0000
Subject: [PATCH 004/146] fix: elements released on land were refloated to
 longitude 0, latitude 0

---
 py_gnome/gnome/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 757e1cd..2a6779e 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1256,6 +1256,8 @@ class Model(GnomeId):
                 # for sc in self.spills.items():
                 on_land = self.map.on_land_points(sc['positions'][-num_released:])
                 sc['status_codes'][-num_released:][on_land] = oil_status.on_land
+                # so that those do not refloat to (0, 0, 0)
+                sc['last_water_positions'][-num_released:] = sc['positions'][-num_released:]
 
                 for item in self.weatherers:
                     if item.on:
-- 
2.43.0


From 118a50a23960ed47a3cc888dcdd206e8665d4132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:45 +0000
Subject: [PATCH 005/146] fix: element ids were not unique to a run: they
 continued across rewinds, containers and models

---
 py_gnome/gnome/spill_container.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index a7332e1..0f6afe5 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -383,6 +383,7 @@ class SpillContainer(AddLogger, SpillContainerData):
         # copy, cause we don't want to change the defaults!
         self._array_types = {}
         self._data_arrays = {}
+        self._next_id = 0
 
 
     def _reset__substances_spills(self):
@@ -572,6 +573,14 @@ class SpillContainer(AddLogger, SpillContainerData):
         :param int num_released: number of particles released
 
         """
+        # unique identifier for each new element released. The array_types are
+        # shared globally (so with other SpillContainers as well): set the
+        # initial_value to this container's own counter, since the initialize
+        # function just calls: range(initial_value, num_released + initial_value)
+        if 'id' in self._array_types:
+            self._array_types['id'].initial_value = self._next_id
+            self._next_id += num_released
+
         for name, atype in self._array_types.items():
             # initialize all arrays even if 0 length
             if atype.shape is None:
@@ -852,6 +861,7 @@ class SpillContainer(AddLogger, SpillContainerData):
         and prepare_for_model_run to define all data arrays.
         At this time the arrays are empty.
         """
+        self._next_id = 0
         for name, atype in self._array_types.items():
             # Initialize data_arrays with 0 elements
             # fixme: is every array type with None shape neccesarily
@@ -907,21 +917,6 @@ class SpillContainer(AddLogger, SpillContainerData):
                 self._array_types['spill_num'].initial_value = \
                     self.spills.index(spill)
 
-                if len(self['spill_num']) > 0:
-                    # unique identifier for each new element released
-                    # this adjusts the _array_types initial_value since the
-                    # initialize function just calls:
-                    #  range(initial_value, num_released + initial_value)
-                    self._array_types['id'].initial_value = \
-                        self['id'][-1] + 1
-                else:
-                    # always reset value of first particle released to 0!
-                    # The array_types are shared globally. To initialize
-                    # uncertain spills correctly, reset this to 0.
-                    # To be safe, always reset to 0 when no
-                    # particles are released
-                    self._array_types['id'].initial_value = 0
-
                 # append to data arrays - number of oil components is
                 # currently the same for all spills
                 total_rel += num_rel
-- 
2.43.0


From b2a7d6172d316f7700405fce0f7e0e4338213a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:02 +0000
Subject: [PATCH 006/146] fix: a second run of a continuous release started
 with the volume of the first one (rewind did not reset it)

---
 py_gnome/gnome/spills/release.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index a4a443d..da2b328 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -672,6 +672,7 @@ class PointLineRelease(Release):
         self._mass_per_le = 0
         self._release_ts = None
         self._pos_ts = None
+        self._previously_released = 0.0
 
     def prepare_for_model_run(self, ts):
         super(PointLineRelease, self).prepare_for_model_run(ts)
@@ -893,6 +894,7 @@ class PolygonRelease(Release):
         self._release_ts = None
         self._tris = None
         self._weights = None
+        self._previously_released = 0.0
         #self._pos_ts = None
 
     def get_polys_as_tris(self, polys, weights=None):
-- 
2.43.0


From 2011f18defcc2911693e38c336134d2370da4bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:30 +0000
Subject: [PATCH 007/146] fix: num_per_timestep given to PointLineRelease or
 SubsurfaceRelease was ignored

---
 py_gnome/gnome/spills/release.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index da2b328..9f3266a 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -571,6 +571,7 @@ class PointLineRelease(Release):
         super(PointLineRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                **kwargs)
 
@@ -1453,6 +1454,7 @@ class SubsurfaceRelease(PointLineRelease):
         super(SubsurfaceRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                start_position = start_position,
                                                end_position = end_position,
-- 
2.43.0


From 2a118c6dcd752dd78876c9a0f60f231a9bc30e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:00 +0000
Subject: [PATCH 008/146] fix: cleanup operation that starts and stops within
 one time step ran from the start of the step

---
 py_gnome/gnome/weatherers/cleanup.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index 7ba87ee..7e4deea 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -61,16 +61,17 @@ class RemoveMass(object):
         if not self.active:
             return
 
-        self._timestep = time_step
-        dt = timedelta(seconds=time_step)
+        # the part of this time step that is within the active range
+        start = model_time
+        stop = model_time + timedelta(seconds=time_step)
 
-        if (model_time < self.active_range[0]):
-            self._timestep = time_step - (self.active_range[0] -
-                                          model_time).total_seconds()
+        if start < self.active_range[0]:
+            start = self.active_range[0]
 
-        if (self.active_range[1] < model_time + dt):
-            self._timestep = (self.active_range[1] -
-                              model_time).total_seconds()
+        if self.active_range[1] < stop:
+            stop = self.active_range[1]
+
+        self._timestep = (stop - start).total_seconds()
 
     def prepare_for_model_step(self, sc, time_step, model_time):
         '''
-- 
2.43.0


From 8af1a6bb930f0fcec73c7c75a6a5ddfc0239d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:00 +0000
Subject: [PATCH 009/146] fix: manual beaching that starts in the middle of a
 time step raised IndexError

---
 py_gnome/gnome/weatherers/manual_beaching.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/weatherers/manual_beaching.py b/py_gnome/gnome/weatherers/manual_beaching.py
index b95f09a..0433a1f 100644
--- a/py_gnome/gnome/weatherers/manual_beaching.py
+++ b/py_gnome/gnome/weatherers/manual_beaching.py
@@ -224,7 +224,10 @@ class Beaching(RemoveMass, Weatherer):
         # Expect the timestep to be much smaller than the delta time between
         # timeseries, however, let's not make this assumption since it can't be
         # enforced
-        t_int = np.where(np.datetime64(model_time) >=
+        # (beaching may start in the middle of the time step)
+        start_time = max(model_time,
+                         self._timeseries['time'][0].astype(datetime))
+        t_int = np.where(np.datetime64(start_time) >=
                          self._timeseries['time'])[0][-1]
 
         # Say the time for timeseries is given as follows:
@@ -245,7 +248,6 @@ class Beaching(RemoveMass, Weatherer):
         # The logic will also handle the case where the time interval straddles
         # multiple rates. This is not expected but the logic should work.
         time_remain = time_step
-        start_time = model_time
         rm_mass = 0.0
         while time_remain > 0:
             dt_for_curr_rate = \
-- 
2.43.0


From 86f4e1555d7d4e1e86afe4b18a762eac179cf36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:25 +0000
Subject: [PATCH 010/146] fix: elements that left the map kept weathering in
 that step: their mass was counted twice

---
 py_gnome/gnome/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 2a6779e..ededf66 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1025,6 +1025,10 @@ class Model(GnomeId):
             on_land_mask = sc['status_codes'] == oil_status.on_land
             sc['fate_status'][on_land_mask] = fate.non_weather
 
+            # the mass of these has been counted as off_maps already
+            removed_mask = sc['status_codes'] == oil_status.to_be_removed
+            sc['fate_status'][removed_mask] = fate.non_weather
+
             w_mask = ((sc['status_codes'] == oil_status.in_water)
                       & ~(sc['fate_status'] & fate.skim == fate.skim)
                       & ~(sc['fate_status'] & fate.burn == fate.burn)
-- 
2.43.0


From a96ac8ad990feed93c9fa04fc4f752285767eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:02 +0000
Subject: [PATCH 011/146] fix: natural dispersion of oil as heavy as the water
 gave NaN or negative losses

---
 .../gnome/weatherers/natural_dispersion.py    | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/weatherers/natural_dispersion.py b/py_gnome/gnome/weatherers/natural_dispersion.py
index 45ac300..1417b54 100644
--- a/py_gnome/gnome/weatherers/natural_dispersion.py
+++ b/py_gnome/gnome/weatherers/natural_dispersion.py
@@ -209,7 +209,10 @@ class NaturalDispersion(Weatherer):
         sigma_o_w = 3.5e-2 # unit N/m
         H0 = wave_height / 0.707 # significant wave height
 
-        d_oil = 4.0 * np.sqrt(sigma_o_w / (constants.gravity * (rho_w - density))) # maximum stable droplet diameter
+        # oil that does not float has no maximum stable droplet diameter
+        floats = density < rho_w
+        d_oil = np.full_like(density, np.inf)
+        d_oil[floats] = 4.0 * np.sqrt(sigma_o_w / (constants.gravity * (rho_w - density[floats]))) # maximum stable droplet diameter
         dynamic_visc = viscosity * density
 
         # parameter values estimated by Li et al., (2017)
@@ -228,10 +231,12 @@ class NaturalDispersion(Weatherer):
         Q_oil = a * (Weber**b) * (Ohnesorge**c)
 
         s_mask = area > 0
+        thickness = np.zeros_like(mass)
         Vemul = (mass[s_mask] / density[s_mask])  / (1.0 - frac_water[s_mask]);
-        thickness = Vemul / area[s_mask];
+        thickness[s_mask] = Vemul / area[s_mask];
 
-        Q_disp = density[s_mask] * thickness * frac_breaking_waves[s_mask] * Q_oil[s_mask] * (1.0 - frac_water[s_mask]) * area[s_mask]
+        s_mask = s_mask & floats
+        Q_disp = density[s_mask] * thickness[s_mask] * frac_breaking_waves[s_mask] * Q_oil[s_mask] * (1.0 - frac_water[s_mask]) * area[s_mask]
         # print(area[s_mask], area)
         disp_out[s_mask] = factor * Q_disp * time_step
 
@@ -243,6 +248,7 @@ class NaturalDispersion(Weatherer):
         droplet = 0.613 * thickness
         # droplet average rising velocity
         speed = (droplet * droplet * constants.gravity * (1.0 - density / rho_w) / (18.0 * visc_w))
+        speed = np.clip(speed, 0.0, None)  # heavy oil does not rise
 
         # vol of refloat oil/wave p
         V_refloat = 0.588 * (np.power(thickness, 1.7) - 5.0e-8)
@@ -262,7 +268,7 @@ class NaturalDispersion(Weatherer):
         Q_sed = (1.6 * ka * np.sqrt(wave_height * disp_wave_energy * frac_breaking_waves / (rho_w * visc_w)) * C_oil * sediment)
 
 
-        s_mask = np.logical_and(sediment > 0.0, thickness >= 1.0e-4)
+        s_mask = (sediment > 0.0) & (thickness >= 1.0e-4) & (q_refloat > 0.0)
         sed_out[s_mask] = (1.0 - frac_water[s_mask]) * Q_sed[s_mask] * time_step
 
         s_mask = (disp_out + sed_out) > mass
@@ -334,6 +340,7 @@ class NaturalDispersion(Weatherer):
             if sediment > 0.0 and thickness >= 1.0e-4:
                # droplet average rising velocity
                speed = (droplet * droplet * constants.gravity * (1.0 - rho / rho_w) / (18.0 * visc_w))
+               speed = max(speed, 0.0)  # heavy oil does not rise
 
                # vol of refloat oil/wave p
                V_refloat = 0.588 * (np.power(thickness, 1.7) - 5.0e-8)
@@ -343,7 +350,10 @@ class NaturalDispersion(Weatherer):
                # (kg/m2-sec) mass rate of emulsion
                q_refloat = C_Roy[i] * C_disp[i] * V_refloat * A
 
-               C_oil = (q_refloat * time_step / (speed * time_step + 1.5 * H_rms[i]))
+               if q_refloat > 0.0:
+                  C_oil = (q_refloat * time_step / (speed * time_step + 1.5 * H_rms[i]))
+               else:
+                  C_oil = 0.0
                # print('C_oil', C_oil)
                # mass rate of oil loss due to sedimentation
                Q_sed = (1.6 * ka * np.sqrt(H_rms[i] * D_e[i] * f_bw[i] / (rho_w * visc_w)) * C_oil * sediment)
-- 
2.43.0


From c85adfd6890f049174516a443a02ee91795981ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:00 +0000
Subject: [PATCH 012/146] fix: three dimensional random and rise velocity
 movers raised OverflowError in backward runs

---
 py_gnome/gnome/cy_gnome/movers.pxd      | 4 ++--
 py_gnome/lib_gnome/RandomVertical_c.cpp | 8 ++++----
 py_gnome/lib_gnome/RiseVelocity_c.cpp   | 2 +-
 py_gnome/lib_gnome/RiseVelocity_c.h     | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/py_gnome/gnome/cy_gnome/movers.pxd b/py_gnome/gnome/cy_gnome/movers.pxd
index 38a3d1c..8fa4bbd 100644
--- a/py_gnome/gnome/cy_gnome/movers.pxd
+++ b/py_gnome/gnome/cy_gnome/movers.pxd
@@ -44,7 +44,7 @@ cdef extern from "RandomVertical_c.h":
         double fHorizontalDiffusionCoefficientBelowML
         double fMixedLayerDepth
         bool bSurfaceIsAllowed
-        OSErr get_move(int n, unsigned long model_time, unsigned long step_len,
+        OSErr get_move(int n, unsigned long model_time, long step_len,
                        WorldPoint3D* ref, WorldPoint3D* delta,
                        short* LE_status, LEType spillType, long spillID)
 
@@ -58,7 +58,7 @@ cdef extern from "RiseVelocity_c.h":
         RiseVelocity_c() except +
         # double water_density
         # double water_viscosity
-        OSErr get_move(int n, unsigned long model_time, unsigned long step_len,
+        OSErr get_move(int n, unsigned long model_time, long step_len,
                        WorldPoint3D* ref, WorldPoint3D* delta,
                        double* rise_velocity,
                        short* LE_status, LEType spillType, long spillID)
diff --git a/py_gnome/lib_gnome/RandomVertical_c.cpp b/py_gnome/lib_gnome/RandomVertical_c.cpp
index 6abcca6..a668659 100644
--- a/py_gnome/lib_gnome/RandomVertical_c.cpp
+++ b/py_gnome/lib_gnome/RandomVertical_c.cpp
@@ -131,9 +131,9 @@ WorldPoint3D RandomVertical_c::GetMove (const Seconds& model_time, Seconds timeS
 		rand1 = GetRandomFloat(-1.0, 1.0);
 		rand2 = GetRandomFloat(-1.0, 1.0);
 		if ((*theLE).z>mixedLayerDepth)
-			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficientBelowML/10000.)*timeStep)/METERSPERDEGREELAT;
+			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficientBelowML/10000.)*fabs(timeStep))/METERSPERDEGREELAT;
 		else
-			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficient/10000.)*timeStep)/METERSPERDEGREELAT;
+			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficient/10000.)*fabs(timeStep))/METERSPERDEGREELAT;
 		dLong = (rand1 * horizontalDiffusionCoefficient )/ LongToLatRatio3 (refPoint.pLat);
 		dLat  = rand2 * horizontalDiffusionCoefficient;		
 		
@@ -151,7 +151,7 @@ WorldPoint3D RandomVertical_c::GetMove (const Seconds& model_time, Seconds timeS
 		if ((*theLE).z<=mixedLayerDepth)
 		{
 			if (fVerticalDiffusionCoefficient==0) return deltaPoint;	
-			verticalDiffusionCoefficient = sqrt(6.*(fVerticalDiffusionCoefficient/10000.)*timeStep);
+			verticalDiffusionCoefficient = sqrt(6.*(fVerticalDiffusionCoefficient/10000.)*fabs(timeStep));
 			rand = GetRandomFloat(-1.0, 1.0);
 			deltaPoint.z = rand*verticalDiffusionCoefficient;
 			//z = deltaPoint.z;	// will add this on to the next move
@@ -176,7 +176,7 @@ WorldPoint3D RandomVertical_c::GetMove (const Seconds& model_time, Seconds timeS
 		if (mixedLayerDepth==depthAtPoint) /*return deltaPoint*/goto dochecks;	// in this case don't need to do anything more
 		// now apply below mixed layer depth diffusion to all particles above and below
 		if (fVerticalBottomDiffusionCoefficient==0/* && z==0*/) /*return deltaPoint*/goto dochecks;	// don't return until do checks
-		verticalDiffusionCoefficient = sqrt(6.*(fVerticalBottomDiffusionCoefficient/10000.)*timeStep);
+		verticalDiffusionCoefficient = sqrt(6.*(fVerticalBottomDiffusionCoefficient/10000.)*fabs(timeStep));
 		rand = GetRandomFloat(-1.0, 1.0);
 		deltaPoint.z = rand*verticalDiffusionCoefficient;
 		
diff --git a/py_gnome/lib_gnome/RiseVelocity_c.cpp b/py_gnome/lib_gnome/RiseVelocity_c.cpp
index ce59bc0..471c532 100644
--- a/py_gnome/lib_gnome/RiseVelocity_c.cpp
+++ b/py_gnome/lib_gnome/RiseVelocity_c.cpp
@@ -151,7 +151,7 @@ double GetDropletSize(double riseVelocity, double water_viscosity, double water_
 	return y1;
 }
 
-OSErr RiseVelocity_c::get_move(int n, unsigned long model_time, unsigned long step_len,
+OSErr RiseVelocity_c::get_move(int n, unsigned long model_time, long step_len,
 							   WorldPoint3D *ref, WorldPoint3D *delta,
 							   double *rise_velocity,
 							   short *LE_status, LEType spillType, long spill_ID)
diff --git a/py_gnome/lib_gnome/RiseVelocity_c.h b/py_gnome/lib_gnome/RiseVelocity_c.h
index 3352092..f1a7e3c 100644
--- a/py_gnome/lib_gnome/RiseVelocity_c.h
+++ b/py_gnome/lib_gnome/RiseVelocity_c.h
@@ -39,7 +39,7 @@ public:
 	virtual WorldPoint3D GetMove(const Seconds& model_time, Seconds timeStep,
 								 long setIndex, long leIndex, LERec *theLE, LETYPE leType);
 
-	OSErr get_move(int n, unsigned long model_time, unsigned long step_len,
+	OSErr get_move(int n, unsigned long model_time, long step_len,
 				   WorldPoint3D *ref, WorldPoint3D *delta,
 				  // double *rise_velocity, double *density, double *droplet_size,
 				   double *rise_velocity,
-- 
2.43.0


From 04df0bd6228809aa57775a5a822a129735a4470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:11 +0000
Subject: [PATCH 013/146] fix: surface concentration raised ValueError, ending
 the run, when all the mass was in one element

---
 py_gnome/gnome/utilities/surface_concentration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/surface_concentration.py b/py_gnome/gnome/utilities/surface_concentration.py
index 6441993..396c261 100644
--- a/py_gnome/gnome/utilities/surface_concentration.py
+++ b/py_gnome/gnome/utilities/surface_concentration.py
@@ -89,7 +89,9 @@ def surface_conc_kde(sc):
                         c[id[id_bin]] = kernel(xy[:, id_bin]) * mass_for_kernel.sum()
                     else:
                         c[id[id_bin]] = kernel(xy[:, id_bin]) * len(mass_for_kernel)
-                except np.linalg.LinAlgError:
+                # ValueError: the covariance is not finite when (almost) all the
+                # mass is in one element
+                except (np.linalg.LinAlgError, ValueError):
                     warnings.warn('LinAlg error occurred in surface concentration calculations. '
                                   'This is usually do to all (or many) elements being at the same location')
             t = t + bin_length
-- 
2.43.0


From 4866dd359b80db452f28159cb734b1e13652a91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:03 +0000
Subject: [PATCH 014/146] fix: output start time and output time step of
 outputters in backward runs

---
 py_gnome/gnome/outputters/outputter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 5641998..d13b512 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -295,7 +295,8 @@ class Outputter(GnomeId):
         d = timedelta(seconds=time_step)
         if self.output_start_time is not None:
             if self.output_start_time != self._model_start_time:
-                if model_time + d < self.output_start_time:
+                if ((model_time + d < self.output_start_time and time_step > 0) or
+                    (model_time + d > self.output_start_time and time_step < 0)):
                     self._write_step = False
                     return
 
@@ -317,9 +318,9 @@ class Outputter(GnomeId):
 
         if self._output_timestep is not None:
             self._write_step = False
-            self._dt_since_lastoutput += time_step
+            self._dt_since_lastoutput += abs(time_step)
 
-            if abs(self._dt_since_lastoutput) >= abs(self._output_timestep):
+            if self._dt_since_lastoutput >= abs(self._output_timestep):
                 self._write_step = True
                 self._dt_since_lastoutput = (self._dt_since_lastoutput %
                                              self._output_timestep)
-- 
2.43.0


From 77a54566d74fc345a1dcee7789d5baaf940d7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:03 +0000
Subject: [PATCH 015/146] fix: output_zero_step=False without an output time
 step suppressed all steps but the last

---
 py_gnome/gnome/outputters/outputter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index d13b512..c4e8e9f 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -324,6 +324,9 @@ class Outputter(GnomeId):
                 self._write_step = True
                 self._dt_since_lastoutput = (self._dt_since_lastoutput %
                                              self._output_timestep)
+        else:
+            # every step: the zero step may have been left out
+            self._write_step = True
 
     def model_step_is_done(self):
         '''
-- 
2.43.0


From ad1d4c5c361089db2520e0cff3c88c446d46df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:03 +0000
Subject: [PATCH 016/146] fix: write_output_post_run took the decision for the
 last step from the step before and lost whole days and signs of the time step

---
 py_gnome/gnome/outputters/outputter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index c4e8e9f..ad2c172 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -471,12 +471,12 @@ class Outputter(GnomeId):
         last_step = False
 
         for step_num in range(num_time_steps):
-            if (step_num > 0 and step_num < num_time_steps - 1):
+            if step_num > 0:
                 next_ts = (self.cache.load_timestep(step_num).items()[0].
                            current_time_stamp)
                 ts = next_ts - model_time
 
-                self.prepare_for_model_step(ts.seconds, model_time)
+                self.prepare_for_model_step(ts.total_seconds(), model_time)
 
             if step_num == num_time_steps - 1:
                 last_step = True
-- 
2.43.0


From 173497ab3502a12cb19d50732f39e41b04605c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:03 +0000
Subject: [PATCH 017/146] fix: outputters that are switched off still wrote
 output

---
 py_gnome/gnome/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index ededf66..84a73b6 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1146,6 +1146,9 @@ class Model(GnomeId):
                        'step_time': self.model_time.isoformat(timespec='minutes')}
 
         for outputter in self.outputters:
+            if not outputter.on:
+                continue
+
             if self.current_time_step == self.num_time_steps - 1:
                 output = outputter.write_output(self.current_time_step, islast_step=True)
             else:
-- 
2.43.0


From 7ca4e6a996222448c3cbae583b01be4cdf49417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:48 +0000
Subject: [PATCH 018/146] fix: shortening the duration of a backward run did
 not rewind the model, lengthening it did

---
 py_gnome/gnome/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 84a73b6..f334511 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -628,7 +628,7 @@ class Model(GnomeId):
 
     @duration.setter
     def duration(self, duration):
-        if duration < self._duration:
+        if abs(duration) < abs(self._duration):
             # only need to rewind if shorter than it was...
             # fixme: actually, only need to rewind if current model time
             # is beyond new time...
-- 
2.43.0


From 885ed03be244dc78f347baf4042210c3bfce9330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:48 +0000
Subject: [PATCH 019/146] fix: OilBudgetOutput ignored on=False

---
 py_gnome/gnome/outputters/oil_budget.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/oil_budget.py b/py_gnome/gnome/outputters/oil_budget.py
index 665c5ee..12bf778 100644
--- a/py_gnome/gnome/outputters/oil_budget.py
+++ b/py_gnome/gnome/outputters/oil_budget.py
@@ -72,8 +72,8 @@ class OilBudgetOutput(BaseMassBalanceOutputter, OutputterFilenameMixin):
         self.file_format = file_format
 
         super(OilBudgetOutput, self).__init__(filename=filename,
-                                              cache=None,
-                                              on=True,
+                                              cache=cache,
+                                              on=on,
                                               output_timestep=output_timestep,
                                               # these always should be this way for this
                                               # outputter
-- 
2.43.0


From c685c60372da53574d78ff56306dadfd1f5e97bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:20 +0000
Subject: [PATCH 020/146] fix: PolygonSet.append of a polygon without points
 raised ValueError

---
 py_gnome/gnome/utilities/geometry/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index 3dbd25d..4d91cbd 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -229,7 +229,7 @@ class PolygonSet(object):
         added_length = polygon.shape[0]
         self._PointsArray.resize((old_length + added_length, 2),
                                  refcheck=False)
-        self._PointsArray[-added_length:, :] = polygon
+        self._PointsArray[old_length:, :] = polygon
 
         self._IndexArray.resize((self._IndexArray.shape[0] + 1),
                                 refcheck=False)
-- 
2.43.0


From 4f3232fa363f679f4e5b462678b7bb806928f4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:20 +0000
Subject: [PATCH 021/146] fix: PolygonSet built from or set to given data could
 not be read or added to

---
 py_gnome/gnome/utilities/geometry/polygons.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index 4d91cbd..34578aa 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -203,7 +203,7 @@ class PolygonSet(object):
         else:
             self._PointsArray = np.array(data[0])
             self._IndexArray = np.array(data[1])
-            self._MetaDataList = np.array(data[2])
+            self._MetaDataList = list(data[2])
 
     def append(self, polygon, metadata=None):
 
@@ -290,9 +290,9 @@ class PolygonSet(object):
         self._PointsArray = np.array(PointData[0], self.dtype)
         self._IndexArray = np.array(PointData[1], dtype=np.int32)
         if MetaData is not None:
-            self._DataArray = MetaData
+            self._MetaDataList = list(MetaData)
         else:
-            self._DataArray = [None] * len(self.PointsArray)
+            self._MetaDataList = [{}] * (len(self._IndexArray) - 1)
 
     def Copy(self):
         """
-- 
2.43.0


From 31af0ea58daf645f537a5885fad855782bbc832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:20 +0000
Subject: [PATCH 022/146] fix: PolygonSets with the same points cut into
 different polygons compared equal

---
 py_gnome/gnome/utilities/geometry/polygons.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index 34578aa..163a329 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -369,6 +369,7 @@ class PolygonSet(object):
             return False
         else:
             return (np.array_equal(self._PointsArray, other._PointsArray) and
+                    np.array_equal(self._IndexArray, other._IndexArray) and
                     self._MetaDataList == other._MetaDataList)
 
     def __ne__(self, other):
-- 
2.43.0


From 5cc529160702c5ee1976539688f154cb0ca7c80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:20 +0000
Subject: [PATCH 023/146] fix: hull around all elements raised ValueError (data
 frame without a geometry)

---
 py_gnome/gnome/utilities/hull.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/py_gnome/gnome/utilities/hull.py b/py_gnome/gnome/utilities/hull.py
index eeb6b10..95098df 100644
--- a/py_gnome/gnome/utilities/hull.py
+++ b/py_gnome/gnome/utilities/hull.py
@@ -63,9 +63,6 @@ def calculate_hull(spill_container, ratio=0.5, union_results=True,
                 hulls_found['spill_num'].append(spill_num)
     else:
         # We want a hull around everything
-        schema = {'positions': [Point(point)
-                                for point in sc_positions]}
-        data_frame = gpd.GeoDataFrame(schema, crs='epsg:4326')
         this_mpt = MultiPoint([Point(point)
                                for point in sc_positions])
         this_hull = concave_hull(this_mpt, ratio=ratio,
-- 
2.43.0


From ae3532322293e5bc89d33d4238ec89f0e9824691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:45 +0000
Subject: [PATCH 024/146] fix: area of polygons with holes or several parts
 depended on the direction of the rings

---
 py_gnome/gnome/utilities/geometry/geo_routines.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/geometry/geo_routines.py b/py_gnome/gnome/utilities/geometry/geo_routines.py
index b7451c6..f845b96 100644
--- a/py_gnome/gnome/utilities/geometry/geo_routines.py
+++ b/py_gnome/gnome/utilities/geometry/geo_routines.py
@@ -7,6 +7,7 @@ import trimesh
 import pyproj
 import geojson
 from shapely.geometry import Polygon, MultiPolygon, shape
+from shapely.geometry.polygon import orient
 import geopandas as gpd
 
 import numpy as np
@@ -24,7 +25,11 @@ def geo_area_of_polygon(poly):
     '''
     if isinstance(poly, (geojson.MultiPolygon, geojson.Polygon)):
         poly = shape(poly)
-    return abs(geod.geometry_area_perimeter(poly)[0])
+    if isinstance(poly, MultiPolygon):
+        return sum(geo_area_of_polygon(p) for p in poly.geoms)
+    # the sign of a ring's area follows its direction: the rings have to be
+    # oriented for holes to be taken out
+    return abs(geod.geometry_area_perimeter(orient(poly))[0])
 
 
 def triangulate_poly(poly):
-- 
2.43.0


From 197683a851cadf47f3598a139bc8c35f40ce4d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:45 +0000
Subject: [PATCH 025/146] fix: thinning a polygon without points raised
 IndexError

---
 py_gnome/gnome/utilities/geometry/polygons.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index 163a329..b2e97af 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -157,6 +157,8 @@ class Polygon(np.ndarray):
         scale = np.asarray(scale, dtype=np.float64)
 
         orig_poly = self
+        if len(self) == 0:
+            return Polygon((), metadata=orig_poly.metadata)
         sc_poly = self._scaling_fun(np.array(self), scale)
         prev_point = np.asarray(sc_poly[0])
         # special_case if last point matches first point
-- 
2.43.0


From 79ceca07b62ac08f1537c86e627dc70b2feb8823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:19 +0000
Subject: [PATCH 026/146] fix: box of the image of a projection was off by half
 a pixel

---
 py_gnome/gnome/utilities/projections.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/utilities/projections.py b/py_gnome/gnome/utilities/projections.py
index 88fcf4b..8e3fc05 100644
--- a/py_gnome/gnome/utilities/projections.py
+++ b/py_gnome/gnome/utilities/projections.py
@@ -225,8 +225,9 @@ class GeoProjection(GnomeId):
 
         # doing this at the end, in case there is a problem with the input.
 
-        self.image_box = (self.to_lonlat((0, image_size[1])),
-                          self.to_lonlat((image_size[0], 0)))
+        # (floats: integers would be taken as pixels and shifted to their centers)
+        self.image_box = (self.to_lonlat((0.0, float(image_size[1]))),
+                          self.to_lonlat((float(image_size[0]), 0.0)))
         self.image_size = image_size
 
     def to_pixel(self, coords, asint=False):
@@ -522,8 +523,9 @@ class FlatEarthProjection(GeoProjection):
 
         # doing this at the end, in case there is a problem with the input.
 
-        self.image_box = (self.to_lonlat((0, image_size[1])),
-                          self.to_lonlat((image_size[0], 0)))
+        # (floats: integers would be taken as pixels and shifted to their centers)
+        self.image_box = (self.to_lonlat((0.0, float(image_size[1]))),
+                          self.to_lonlat((float(image_size[0]), 0.0)))
         self.image_size = image_size
 
 
-- 
2.43.0


From 291ba5e0f57d2020b8098d3674c64a211a741695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:19 +0000
Subject: [PATCH 027/146] fix: projections changed the arrays of positions or
 pixels given to them

---
 py_gnome/gnome/utilities/projections.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/utilities/projections.py b/py_gnome/gnome/utilities/projections.py
index 8e3fc05..8dfe2c7 100644
--- a/py_gnome/gnome/utilities/projections.py
+++ b/py_gnome/gnome/utilities/projections.py
@@ -332,7 +332,8 @@ class GeoProjection(GnomeId):
             coords += 0.5
 
         # shift to pixel center coords
-        coords -= self.offset
+        # (makes a copy: the input must not be changed)
+        coords = coords - self.offset
 
         # scale to lat-lon
         coords /= self.scale
@@ -628,7 +629,8 @@ class RectangularGridProjection(NoProjection):
         """
         coords = to_2d_coords(coords)
         # All computation in floats -- convert to int if asked for
-        coords = np.asarray(coords, dtype=np.float64)
+        # (a copy: the input must not be changed)
+        coords = np.array(coords, dtype=np.float64)
         pixel_coords = np.zeros_like(coords, dtype=np.float64)
 
         np.putmask(coords,
@@ -704,9 +706,8 @@ class RectangularGridProjection(NoProjection):
 
         # out of bounds gets clipped to boundary
 
-        np.clip(coords,
-                (0, 0), (self.max_lon_index, self.max_lat_index),
-                out=coords)
+        coords = np.clip(coords,
+                         (0, 0), (self.max_lon_index, self.max_lat_index))
 
         # interpolate to lon-lat_coords
         lon = self._pixel_to_lon_interp(coords[:, 0])
-- 
2.43.0


From 41a3ab13ac39ca66da2dad45810b369e0a1a55a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:23 +0000
Subject: [PATCH 028/146] fix: time zone offsets lost a minute to rounding

---
 py_gnome/gnome/utilities/time_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/utilities/time_utils.py b/py_gnome/gnome/utilities/time_utils.py
index 4e48b37..c7ceb6b 100644
--- a/py_gnome/gnome/utilities/time_utils.py
+++ b/py_gnome/gnome/utilities/time_utils.py
@@ -75,7 +75,7 @@ class TZOffset:
         if self.offset is None:
             return timedelta(0)
         else:
-            return timedelta(minutes=int(self.offset * 60))
+            return timedelta(minutes=round(self.offset * 60))
 
     def as_iso_string(self):
         """
@@ -91,8 +91,7 @@ class TZOffset:
             return ""
         else:
             sign = "-" if self.offset <0 else "+"
-            hours = int(abs(self.offset))
-            minutes = int((abs(self.offset) - hours) * 60)
+            hours, minutes = divmod(round(abs(self.offset) * 60), 60)
             return f"{sign}{hours:0>2}:{minutes:0>2}"
 
 
-- 
2.43.0


From 1642d2eb46695c202c9d381ae4c9ba1346df2dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:44 +0000
Subject: [PATCH 029/146] fix: native conversion of seconds to dates was a day
 ahead in the first hour of days with daylight saving time

---
 py_gnome/lib_gnome/StringFunctions.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py_gnome/lib_gnome/StringFunctions.cpp b/py_gnome/lib_gnome/StringFunctions.cpp
index 2d99f5c..23ecf3c 100644
--- a/py_gnome/lib_gnome/StringFunctions.cpp
+++ b/py_gnome/lib_gnome/StringFunctions.cpp
@@ -1482,7 +1482,7 @@ void Secs2DateStrings(Seconds seconds,
 		if(time->tm_hour > 0)
 			time->tm_hour--;
 		else {
-			seconds -= 3600;
+			converted_seconds -= 3600;
 			time = localtime(&converted_seconds);
 			if (time->tm_isdst == 1) {
 				// life is good, both times were daylight savings time
@@ -1527,7 +1527,7 @@ void Secs2DateString(Seconds seconds, CHARPTR s)
 			if(newTime->tm_hour > 0)
 				newTime->tm_hour--;
 			else {
-				seconds -= 3600;
+				converted_seconds -= 3600;
 				newTime = localtime(&converted_seconds);
 				if (newTime->tm_isdst == 1) {
 					newTime->tm_year = newTime->tm_year % 100; // year 2000 fix , JLM 1/25/99
@@ -1569,7 +1569,7 @@ void Secs2DateString2(Seconds seconds, CHARPTR s)
 			if (newTime->tm_hour > 0)
 				newTime->tm_hour--;
 			else {
-				seconds -= 3600;
+				converted_seconds -= 3600;
 				newTime = localtime(&converted_seconds);
 
 				if (newTime->tm_isdst == 1) {
@@ -1664,7 +1664,7 @@ void Secs2DateStringNetCDF(Seconds seconds, CHARPTR s)
 			if(newTime->tm_hour > 0)
 				newTime->tm_hour--;
 			else {
-				seconds -= 3600;
+				converted_seconds -= 3600;
 				newTime = localtime(&converted_seconds);
 				if(newTime->tm_isdst == 1) {
 					// life is good, both times were daylight savings time
@@ -1939,7 +1939,7 @@ void SecondsToDate (Seconds seconds, DateTimeRec *date)
 			if (newTime->tm_hour > 0)
 				newTime->tm_hour--;
 			else {
-				seconds -= 3600;
+				converted_seconds -= 3600;
 				newTime = localtime(&converted_seconds);
 
 				if (newTime->tm_isdst == 1) {
-- 
2.43.0


From d9e14eb3f93c1afb9a641b30786407eec10f57cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:12 +0000
Subject: [PATCH 030/146] fix: Weibull distribution accepted a maximum equal to
 its minimum, for which drawing never ends

---
 py_gnome/gnome/utilities/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/distributions.py b/py_gnome/gnome/utilities/distributions.py
index 7b4192a..f50b148 100644
--- a/py_gnome/gnome/utilities/distributions.py
+++ b/py_gnome/gnome/utilities/distributions.py
@@ -231,7 +231,7 @@ class WeibullDistribution(DistributionBase):
                 raise ValueError('Weibull distribution requires '
                                  'maximum > 0.1% of total distribution')
 
-            if self.min_ is not None and self.max_ < self.min_:
+            if self.min_ is not None and self.max_ <= self.min_:
                 raise ValueError('Weibull distribution requires '
                                  'maximum > minimum')
 
-- 
2.43.0


From adb357626039fea6829579471bf5f254c4ad26f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:25 +0000
Subject: [PATCH 031/146] fix: Wind changed the array of data given to it when
 units were converted

---
 py_gnome/gnome/environment/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index ae10b47..375e6a3 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -371,7 +371,7 @@ class Wind(Timeseries, Environment):
         if self._check_timeseries(value):
             units = self.units
 
-            wind_data = self._xform_input_timeseries(value)
+            wind_data = self._xform_input_timeseries(value).copy()
             self._timeseries = wind_data.copy()
             wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
                                                      'meter per second')
-- 
2.43.0


From 6b645db3bb3d215e418b8c32464b7246d8fdaf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:41 +0000
Subject: [PATCH 032/146] fix: Wind converted the units of only one component
 of data in 'uv' form

---
 py_gnome/gnome/environment/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 375e6a3..cce2467 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -441,7 +441,7 @@ class Wind(Timeseries, Environment):
         if from_unit != to_unit:
             data[:, 0] = uc.convert('Velocity', from_unit, to_unit, data[:, 0])
 
-            if coord_sys == ts_format.uv:
+            if tsformat(coord_sys) == ts_format.uv:
                 data[:, 1] = uc.convert('Velocity', from_unit, to_unit, data[:, 1])
 
         return data
-- 
2.43.0


From 1a35160720c196d890c9be03ec626b9a3bab18bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:41 +0000
Subject: [PATCH 033/146] fix: Wind.timeseries was in m/s after set_wind_data
 and in 'uv' for winds given in 'uv'

---
 py_gnome/gnome/environment/wind.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index cce2467..4de36cf 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -23,6 +23,7 @@ from gnome.cy_gnome.cy_ossm_time import ossm_wind_units
 
 from gnome.utilities.time_utils import (sec_to_datetime, zero_time, sec_to_date)
 from gnome.utilities.timeseries import Timeseries
+from gnome.utilities.transforms import uv_to_r_theta_wind
 from gnome.utilities.inf_datetime import InfDateTime
 from gnome.utilities.distributions import RayleighDistribution as rayleigh
 
@@ -373,6 +374,9 @@ class Wind(Timeseries, Environment):
 
             wind_data = self._xform_input_timeseries(value).copy()
             self._timeseries = wind_data.copy()
+            if tsformat(coord_sys) == ts_format.uv:
+                # .timeseries is always in 'r-theta'
+                self._timeseries['value'] = uv_to_r_theta_wind(wind_data['value'])
             wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
                                                      'meter per second')
 
@@ -577,12 +581,7 @@ class Wind(Timeseries, Environment):
             self._check_units(units)
             self.units = units
 
-            wind_data = self._xform_input_timeseries(wind_data)
-            wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
-                                                     'meter per second')
-
-            super(Wind, self).set_timeseries(wind_data, coord_sys)
-            self._timeseries = wind_data
+            self.new_set_timeseries(wind_data, coord_sys)
         else:
             raise ValueError('Bad timeseries as input')
 
-- 
2.43.0


From d145477cda55999bf6d1863c8ea482d829b7d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:41 +0000
Subject: [PATCH 034/146] fix: Wind(filename) swapped the latitude and
 longitude of the station

---
 py_gnome/gnome/environment/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 4de36cf..3ff70b6 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -216,8 +216,8 @@ class Wind(Timeseries, Environment):
             self.new_set_timeseries(wind_vel, coord_sys=coord_sys)
 
             if coords != (None, None):
-                self.longitude = coords[1]
-                self.latitude = coords[0]
+                self.longitude = coords[0]
+                self.latitude = coords[1]
 
             self.name = kwargs.pop('name', name)
             self.units = units
-- 
2.43.0


From ad7f980510cc31b507372830063461aa5da16077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:41 +0000
Subject: [PATCH 035/146] fix: wind files without a station name could not be
 read

---
 py_gnome/gnome/environment/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 3ff70b6..7ec9952 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -840,7 +840,7 @@ def read_ossm_format(filename):
         try:
             # read the header
             (data, line_no, name, coords, units, timezone_offset,
-             timezone_name) = _read_ossm_header(infile)
+             timezone_name) = _read_ossm_header(infile, filename)
             # read the rest of the data
             times = [data[0]]
             speeds = [data[1]]
@@ -861,7 +861,7 @@ def read_ossm_format(filename):
     return (name, coords, units, timezone_offset, timezone_name, times, speeds, directions)
 
 
-def _read_ossm_header(infile):
+def _read_ossm_header(infile, filename=''):
     # there could be more sanity checking here
     # for now, for the most part, if it doesn't understand what's there
     # it ignores it.
-- 
2.43.0


From e802c9cdebda70b7daa3bf09d19de59f00856c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:41 +0000
Subject: [PATCH 036/146] fix: RunningAverage could not be asked for the value
 at a time

---
 py_gnome/gnome/environment/running_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/running_average.py b/py_gnome/gnome/environment/running_average.py
index fc7e00e..9a1180f 100644
--- a/py_gnome/gnome/environment/running_average.py
+++ b/py_gnome/gnome/environment/running_average.py
@@ -187,7 +187,7 @@ class RunningAverage(Environment):
             timeval = np.zeros((len(datetime), ),
                                dtype=basic_types.time_value_pair)
             timeval['time'] = date_to_sec(datetime)
-            timeval['value'] = self.ossm.get_time_value(timeval['time'])
+            timeval['value'], _err = self.ossm.get_time_value(timeval['time'])
 
             datetimeval = to_datetime_value_2d(timeval, 'uv')
 
-- 
2.43.0


From e965dab8ac39aaa0f8f288445a586c188cd4b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:01 +0000
Subject: [PATCH 037/146] fix: tide heights that cannot be corrected crashed
 the process (uninitialised pointers were freed)

---
 py_gnome/lib_gnome/ShioHeight.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/ShioHeight.cpp b/py_gnome/lib_gnome/ShioHeight.cpp
index 5db6c06..3af6661 100644
--- a/py_gnome/lib_gnome/ShioHeight.cpp
+++ b/py_gnome/lib_gnome/ShioHeight.cpp
@@ -553,6 +553,7 @@ short DoOffSetCorrection (COMPHEIGHTS *answers,  // Hdl to reference station hei
 	short		*HLFlagHdl = 0;
 	double		*HArrayPtr = 0;
 	EXTFLAG		*TArrayPtr = 0;
+	double		*pSlopesMult = 0, *pSlopesAdd = 0;
 
 	errorFlag=0;
 
@@ -752,8 +753,6 @@ short DoOffSetCorrection (COMPHEIGHTS *answers,  // Hdl to reference station hei
 
 	}
 
-    double *pSlopesMult, *pSlopesAdd;
-
 	pSlopesMult = new double[NoOfHighsLows];    // allocate memeory for slope array
 	pSlopesAdd = new double[NoOfHighsLows];    // allocate memeory for slope array
 
@@ -783,6 +782,7 @@ short DoOffSetCorrection (COMPHEIGHTS *answers,  // Hdl to reference station hei
 
     // for height values do hermite interpolation
     double dT0, dT1, dSMult0, dSMult1, dSAdd0, dSAdd1;
+    dSMult0 = dSMult1 = dSAdd0 = dSAdd1 = 0.;
 
     // interpolate by hermite
 	for(i=0, j=0; i<numOfPoints && j<NoOfHighsLows; i++)
-- 
2.43.0


From c6bebb8b2b85d5ed0326b1e5cb5ea57244dee35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:03 +0000
Subject: [PATCH 038/146] fix: tide constituents at the end of a line without
 trailing blank were read past the end of the line

---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 6d2651a..2cb479f 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -109,7 +109,7 @@ OSErr ShioTimeValue_c::GetKeyedValue(CHARH f, const char *key, long lineNum, cha
 		for(i = 0;i < kMaxStrChar && *p != ' ' && *p != '\t' && *p ;str[i++] = (*p++)){} // copy to next white space or end of string
 		if(i == kMaxStrChar) {err = -3; goto done;}
 		str[i] = 0;
-		p++;
+		if(*p) p++;
 		scanErr =  StringToDouble(str,&value);
 		if(scanErr) return scanErr;
 		(*h)[numVals++] = value;
-- 
2.43.0


From 4ac03dd77cd69d3b54d02bd5313d08e9d3b87788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:03 +0000
Subject: [PATCH 039/146] fix: lines that are missing from or unreadable in a
 SHIO tide file were ignored: the tide was wrong or crashed the process

---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 72 +++++++++++++-------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 2cb479f..4fdbf77 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -1524,8 +1524,8 @@ OSErr ShioTimeValue_c::ReadShioValues (char *path)
 	this->fStationName[MAXSTATIONNAMELEN-1] = 0;
 
 	// set fStationPosition correctly so base class GetStationLocation() works
-	if ((err = this->GetKeyedValue(f, "Latitude=", lineNum++, strLine, &stationLat)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "Longitude=", lineNum++, strLine, &stationLon)) > 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "Latitude=", lineNum++, strLine, &stationLat)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "Longitude=", lineNum++, strLine, &stationLon)) != 0)  goto readError;
 
 	this->fStationPosition.p.pLat = stationLat * 1000000;
 	this->fStationPosition.p.pLong = stationLon * 1000000;
@@ -1534,7 +1534,7 @@ OSErr ShioTimeValue_c::ReadShioValues (char *path)
 
 	// code goes here in version 1.2.7 these lines won't be required for height files, but should still allow old format
 	//if(err = this->GetKeyedValue(f,"DatumControls.datum=",lineNum++,strLine,&this->fConstituent.DatumControls.datum))  goto readError;
-	if ((err = this->GetKeyedValue(f, "DatumControls.datum=", lineNum++, strLine, &this->fConstituent.DatumControls.datum)) > 0)
+	if ((err = this->GetKeyedValue(f, "DatumControls.datum=", lineNum++, strLine, &this->fConstituent.DatumControls.datum)) != 0)
 	{
 		if(this->fStationType=='h' || this->fStationType=='H')
 		{
@@ -1546,53 +1546,53 @@ OSErr ShioTimeValue_c::ReadShioValues (char *path)
 			goto readError;
 		}
 	}
-	if ((err = this->GetKeyedValue(f, "DatumControls.FDir=", lineNum++, strLine, &this->fConstituent.DatumControls.FDir)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "DatumControls.EDir=", lineNum++, strLine, &this->fConstituent.DatumControls.EDir)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "DatumControls.L2Flag=", lineNum++, strLine, &this->fConstituent.DatumControls.L2Flag)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "DatumControls.HFlag=", lineNum++, strLine, &this->fConstituent.DatumControls.HFlag)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "DatumControls.RotFlag=", lineNum++, strLine, &this->fConstituent.DatumControls.RotFlag)) > 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "DatumControls.FDir=", lineNum++, strLine, &this->fConstituent.DatumControls.FDir)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "DatumControls.EDir=", lineNum++, strLine, &this->fConstituent.DatumControls.EDir)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "DatumControls.L2Flag=", lineNum++, strLine, &this->fConstituent.DatumControls.L2Flag)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "DatumControls.HFlag=", lineNum++, strLine, &this->fConstituent.DatumControls.HFlag)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "DatumControls.RotFlag=", lineNum++, strLine, &this->fConstituent.DatumControls.RotFlag)) != 0)  goto readError;
 
 skipDatumControls:
-	if ((err = this->GetKeyedValue(f, "H=", lineNum++, strLine, &this->fConstituent.H)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "kPrime=", lineNum++, strLine, &this->fConstituent.kPrime)) > 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "H=", lineNum++, strLine, &this->fConstituent.H)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "kPrime=", lineNum++, strLine, &this->fConstituent.kPrime)) != 0)  goto readError;
 
 	if (!(p = GetKeyedLine(f,"[Offset]",lineNum++,strLine)))  goto readError;
 
 	switch(this->fStationType)
 	{
 		case 'c': case 'C':
-			if ((err = this->GetKeyedValue(f, "MinBefFloodTime=", lineNum++, strLine, &this->fCurrentOffset.MinBefFloodTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "FloodTime=", lineNum++, strLine, &this->fCurrentOffset.FloodTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MinBefEbbTime=", lineNum++, strLine, &this->fCurrentOffset.MinBefEbbTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "EbbTime=", lineNum++, strLine, &this->fCurrentOffset.EbbTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "FloodSpdRatio=", lineNum++, strLine, &this->fCurrentOffset.FloodSpdRatio)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "EbbSpdRatio=", lineNum++, strLine, &this->fCurrentOffset.EbbSpdRatio)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MinBFloodSpd=", lineNum++, strLine, &this->fCurrentOffset.MinBFloodSpd)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MinBFloodDir=", lineNum++, strLine, &this->fCurrentOffset.MinBFloodDir)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MaxFloodSpd=", lineNum++, strLine, &this->fCurrentOffset.MaxFloodSpd)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MaxFloodDir=", lineNum++, strLine, &this->fCurrentOffset.MaxFloodDir)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MinBEbbSpd=", lineNum++, strLine, &this->fCurrentOffset.MinBEbbSpd)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MinBEbbDir=", lineNum++, strLine, &this->fCurrentOffset.MinBEbbDir)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MaxEbbSpd=", lineNum++, strLine, &this->fCurrentOffset.MaxEbbSpd)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MaxEbbDir=", lineNum++, strLine, &this->fCurrentOffset.MaxEbbDir)) > 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBefFloodTime=", lineNum++, strLine, &this->fCurrentOffset.MinBefFloodTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "FloodTime=", lineNum++, strLine, &this->fCurrentOffset.FloodTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBefEbbTime=", lineNum++, strLine, &this->fCurrentOffset.MinBefEbbTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "EbbTime=", lineNum++, strLine, &this->fCurrentOffset.EbbTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "FloodSpdRatio=", lineNum++, strLine, &this->fCurrentOffset.FloodSpdRatio)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "EbbSpdRatio=", lineNum++, strLine, &this->fCurrentOffset.EbbSpdRatio)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBFloodSpd=", lineNum++, strLine, &this->fCurrentOffset.MinBFloodSpd)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBFloodDir=", lineNum++, strLine, &this->fCurrentOffset.MinBFloodDir)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MaxFloodSpd=", lineNum++, strLine, &this->fCurrentOffset.MaxFloodSpd)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MaxFloodDir=", lineNum++, strLine, &this->fCurrentOffset.MaxFloodDir)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBEbbSpd=", lineNum++, strLine, &this->fCurrentOffset.MinBEbbSpd)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBEbbDir=", lineNum++, strLine, &this->fCurrentOffset.MinBEbbDir)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MaxEbbSpd=", lineNum++, strLine, &this->fCurrentOffset.MaxEbbSpd)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MaxEbbDir=", lineNum++, strLine, &this->fCurrentOffset.MaxEbbDir)) != 0)  goto readError;
 			SetFileType(SHIOCURRENTSFILE);
 			break;
 		case 'h': case 'H':
-			if ((err = this->GetKeyedValue(f, "HighTime=", lineNum++, strLine, &this->fHeightOffset.HighTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowTime=", lineNum++, strLine, &this->fHeightOffset.LowTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "HighHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Mult)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "HighHeight_Add=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Add)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Mult)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowHeight_Add=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Add)) > 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighTime=", lineNum++, strLine, &this->fHeightOffset.HighTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowTime=", lineNum++, strLine, &this->fHeightOffset.LowTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Mult)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighHeight_Add=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Add)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Mult)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowHeight_Add=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Add)) != 0)  goto readError;
 			SetFileType(SHIOHEIGHTSFILE);
 			break;
 		case 'p': case 'P':
-			if ((err = this->GetKeyedValue(f, "HighTime=", lineNum++, strLine, &this->fHeightOffset.HighTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowTime=", lineNum++, strLine, &this->fHeightOffset.LowTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "HighHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Mult)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "HighHeight_Add=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Add)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Mult)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowHeight_Add=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Add)) > 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighTime=", lineNum++, strLine, &this->fHeightOffset.HighTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowTime=", lineNum++, strLine, &this->fHeightOffset.LowTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Mult)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighHeight_Add=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Add)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Mult)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowHeight_Add=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Add)) != 0)  goto readError;
 			SetFileType(PROGRESSIVETIDEFILE);
 			break;
 	}
-- 
2.43.0


From fbd2b14955841edbf32be96874de65efaaf6249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:03 +0000
Subject: [PATCH 040/146] fix: SHIO tide files were read past their end

---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 4fdbf77..5902a58 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -1468,11 +1468,12 @@ OSErr ShioTimeValue_c::ReadShioValues (char *path)
 		for(; _ifstream->get(c); x++);
 		if(!(x > 0))
 			throw("empty file.\n");
-		f = _NewHandle(x);
+		f = _NewHandle(x + 1);
 		delete _ifstream;
 		_ifstream = new fstream(path, ios::in);
 		for(; i < x && _ifstream->get(c); i++)
 			DEREFH(f)[i] = c;
+		DEREFH(f)[i] = 0;
 		delete _ifstream;
 	} catch(...) {
 
-- 
2.43.0


From 525030c5d67fec76e5d76a1825c47e8c08639ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:20 +0000
Subject: [PATCH 041/146] fix: tide heights more than 6 hours after a high or
 low, and the first value of progressive waves, were uninitialised memory

---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 5902a58..9a5e936 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -450,7 +450,8 @@ OSErr ShioTimeValue_c::GetTimeValue(const Seconds& current_time, VelocityRec *va
 	//SecondsToDate(modelStartTime,&beginDate);
 
 //	SecondsToDate(modelStartTime-6*3600,&beginDate);	// for now to handle the new tidal current mover 1/27/04 // minus AH 07/10/2012
-	SecondsToDate(current_time-6*3600,&beginDate);	// AH 07/10/2012
+	// heights: highs and lows may be more than 6 hours apart, and the one before current_time is needed
+	SecondsToDate(current_time-(this->fStationType == 'H' ? 30 : 6)*3600,&beginDate);	// AH 07/10/2012
 
 	beginDate.hour = 0; // Shio expects this to be the start of the day
 	beginDate.minute = 0;
@@ -964,6 +965,7 @@ OSErr ShioTimeValue_c::GetTimeValue(const Seconds& current_time, VelocityRec *va
 				if (err) goto done_heights;
 				fScaleFactor = scaleFactor;
 			}
+			if (!valueFound) { err = -1; goto done_heights; }	// not between two of the highs and lows
 			(*value).u = (*value).u * fScaleFactor;
 		}
 
@@ -1145,7 +1147,7 @@ OSErr ShioTimeValue_c::GetTimeValue(const Seconds& current_time, VelocityRec *va
 				if (err) goto done_heights2;
 				fScaleFactor = scaleFactor;
 			}
-			(*value).u = (*value).u * fScaleFactor;
+			err = GetProgressiveWaveValue(current_time, value);
 		}
 
 
@@ -1187,6 +1189,7 @@ double ShioTimeValue_c::GetDeriv (Seconds t1, double val1, Seconds t2, double va
 Boolean ShioTimeValue_c::InHeightTimeRange(Seconds forTime)
 {
 	long numValues = this->GetNumHighLowValues();
+	if (numValues < 1) return false;
 
 	Seconds startTime = INDEXH(fHighLowDataHdl, 0).time;
 	Seconds endTime = INDEXH(fHighLowDataHdl, numValues-1).time;
-- 
2.43.0


From c5fcb180fdf7810beb5169a0d0bd0cdbde95349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:49 +0000
Subject: [PATCH 042/146] fix: Python WindMover moved elements below the
 surface

The C++ wind movers leave elements with z > 0 alone; the Python WindMover
only got that right for gridded winds (which zero the wind at depth).
---
 py_gnome/gnome/movers/py_wind_movers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index a558857..46e7d17 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -430,7 +430,9 @@ class WindMover(movers.PyMover):
         positions = sc['positions']
 
         if self.active and len(positions) > 0:
-            status = sc['status_codes'] != oil_status.in_water
+            # wind doesn't act below the surface
+            status = ((sc['status_codes'] != oil_status.in_water)
+                      | (positions[:, 2] > 0))
             pos = positions[:]
 
             deltas = self.delta_method(num_method)(sc, time_step, model_time_datetime, pos, self.wind)
-- 
2.43.0


From 924493286ac4d706a8a51d1110c99141dcde3ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:51 +0000
Subject: [PATCH 043/146] fix: Li2017 dispersion gave infinite droplets in calm
 water

---
 py_gnome/gnome/weatherers/natural_dispersion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/natural_dispersion.py b/py_gnome/gnome/weatherers/natural_dispersion.py
index 1417b54..4d4923b 100644
--- a/py_gnome/gnome/weatherers/natural_dispersion.py
+++ b/py_gnome/gnome/weatherers/natural_dispersion.py
@@ -235,7 +235,8 @@ class NaturalDispersion(Weatherer):
         Vemul = (mass[s_mask] / density[s_mask])  / (1.0 - frac_water[s_mask]);
         thickness[s_mask] = Vemul / area[s_mask];
 
-        s_mask = s_mask & floats
+        # without waves no droplets are formed
+        s_mask = s_mask & floats & (H0 > 0)
         Q_disp = density[s_mask] * thickness[s_mask] * frac_breaking_waves[s_mask] * Q_oil[s_mask] * (1.0 - frac_water[s_mask]) * area[s_mask]
         # print(area[s_mask], area)
         disp_out[s_mask] = factor * Q_disp * time_step
-- 
2.43.0


From d3a2bdad3707fa4d2a828be0a044e5255a32d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:28 +0000
Subject: [PATCH 044/146] fix: oil density was not brought up to date once any
 element no longer weathered at the surface

recalc_density worked on the 'surface_weather' view of the data, which is a
copy as soon as one element is on land, below the surface or without mass,
and then wrote back the (empty) 'all' view.
---
 py_gnome/gnome/ops/density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/ops/density.py b/py_gnome/gnome/ops/density.py
index 2fb9f68..e66cef1 100644
--- a/py_gnome/gnome/ops/density.py
+++ b/py_gnome/gnome/ops/density.py
@@ -104,7 +104,7 @@ def recalc_density(sc, water=None, aggregate=True):
             data['density'] = new_rho
             data['oil_density'] = oil_rho
 
-    sc.update_from_fatedataview(fate_status='all')
+    sc.update_from_fatedataview()
 
     # also initialize/update aggregated sc
     if aggregate:
-- 
2.43.0


From 02dcd1f64f4df72e43bfe4ad03bb4432e12dc959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:31 +0000
Subject: [PATCH 045/146] fix: a second burn or dispersant operation did not
 mark oil of its own (burnt leftovers only, or crashed)

---
 py_gnome/gnome/weatherers/cleanup.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index 7e4deea..f01c286 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -467,6 +467,7 @@ class Burn(CleanUpBase):
         self._burn_constant = 0.000058
         self._oilwater_thick_burnrate = None
         self._oil_vol_burnrate = None   # burn rate of only the oil
+        self._marked_LEs = False        # has this burn marked its LEs
 
         # validate user units before setting _area_units/_thickness_units
         self._thickness = thickness
@@ -570,6 +571,7 @@ class Burn(CleanUpBase):
         initializes sc.mass_balance['burned'] = 0.0
         '''
         self._init_rate_duration()
+        self._marked_LEs = False
 
         if self.on:
             sc.mass_balance['burned'] = 0.0
@@ -596,7 +598,10 @@ class Burn(CleanUpBase):
             return
 
         # only when it is active, update the status codes
-        if (sc['fate_status'] == bt_fate.burn).sum() == 0:
+        # (the LEs marked so far may be those of another burn)
+        if (not self._marked_LEs or
+                (sc['fate_status'] == bt_fate.burn).sum() == 0):
+            self._marked_LEs = True
             substance = sc.substance
 
             _si_area = uc.convert('Area', self.area_units, 'm^2', self.area)
@@ -818,8 +823,10 @@ class ChemicalDispersion(CleanUpBase):
             return
 
         # only when it is active, update the status codes
+        # (the LEs marked so far may be those of another operation)
         self._set__timestep(time_step, model_time)
-        if (sc['fate_status'] == bt_fate.disperse).sum() == 0:
+        if (self._rate is None or
+                (sc['fate_status'] == bt_fate.disperse).sum() == 0):
             substance = sc.substance
             # mass = sum([spill.get_mass() for spill in sc.spills])
             mass = 0
-- 
2.43.0


From ad27717a3f0f3b3e9026b8682106e9bf3731c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:37 +0000
Subject: [PATCH 046/146] fix: a cleanup operation made with an efficiency
 outside 0 to 1 removed NaN

---
 py_gnome/gnome/weatherers/cleanup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index f01c286..b1a24f7 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -129,6 +129,10 @@ class CleanUpBase(RemoveMass, Weatherer):
             self._efficiency = value
         else:
             valid = np.logical_and(value >= 0, value <= 1)
+            if self._efficiency is None and not np.all(valid):
+                # there is no valid efficiency to keep
+                raise ValueError('efficiency must be between 0 and 1, '
+                                 'got: {0}'.format(value))
             self._efficiency = np.where(valid, value, self._efficiency).astype('float')
 
     def _update_LE_status_codes(self,
-- 
2.43.0


From 53a39ee9654f14b9423872b6292ca7d5b6df7a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:39 +0000
Subject: [PATCH 047/146] fix: cleanup asking for all of the oil could crash by
 rounding

---
 py_gnome/gnome/weatherers/cleanup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index b1a24f7..4476be5 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -182,7 +182,9 @@ class CleanUpBase(RemoveMass, Weatherer):
                 curr_mass = curr_mass / (1 - data['frac_water'])
 
             # (1 - frac_water) * mass_to_remove
-            if mass_to_remove >= curr_mass.sum():
+            # (cumsum() and sum() are not rounded alike)
+            cum_mass = np.cumsum(curr_mass)
+            if len(cum_mass) == 0 or mass_to_remove >= cum_mass[-1]:
                 data['fate_status'][:] = new_status
 
                 self.logger.warning('{0} insufficient mass released for cleanup'
@@ -194,7 +196,7 @@ class CleanUpBase(RemoveMass, Weatherer):
             else:
                 # sum up mass until threshold is reached, find index where
                 # total_mass_removed is reached or exceeded
-                ix = np.where(np.cumsum(curr_mass) >= mass_to_remove)[0][0]
+                ix = np.where(cum_mass >= mass_to_remove)[0][0]
                 # change status for elements upto and including 'ix'
                 data['fate_status'][:ix + 1] = new_status
 
-- 
2.43.0


From 0a7cb34705c4db347fb91b36be58d92fc08b1c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:24 +0000
Subject: [PATCH 048/146] fix: water density and viscosity in the user's units
 were taken for SI ones

---
 py_gnome/gnome/environment/water.py             | 11 +++++++----
 py_gnome/gnome/weatherers/natural_dispersion.py |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/environment/water.py b/py_gnome/gnome/environment/water.py
index 35b3452..1b4cc66 100644
--- a/py_gnome/gnome/environment/water.py
+++ b/py_gnome/gnome/environment/water.py
@@ -286,22 +286,25 @@ class Water(Environment):
         if val is None:
             return val
 
+        # density is computed, it does not depend on the user's units
+        from_unit = (self._gnome_units[attr] if attr == 'density'
+                     else self._units.get(attr))
+
         if unit is None:
             # Note: salinity only have one units since we don't
             # have any conversions for them in nucos yet - revisit
             # this per requirements
             if (attr not in self._gnome_units or
-                    self._gnome_units[attr] == self._units[attr]):
+                    self._gnome_units[attr] == from_unit):
                 return val
             else:
                 unit = self._gnome_units[attr]
 
-        if unit == self._units[attr]:  # no need to convert
+        if unit == from_unit:  # no need to convert
             return val
 
         if unit in self._units_type[attr][1]:
-            return uc.convert(self._units_type[attr][0], self.units[attr], unit,
-                              val)
+            return uc.convert(self._units_type[attr][0], from_unit, unit, val)
         else:
             # log to file if we have logger
             ex = uc.InvalidUnitError((unit, self._units_type[attr][0]))
diff --git a/py_gnome/gnome/weatherers/natural_dispersion.py b/py_gnome/gnome/weatherers/natural_dispersion.py
index 4d4923b..828ee86 100644
--- a/py_gnome/gnome/weatherers/natural_dispersion.py
+++ b/py_gnome/gnome/weatherers/natural_dispersion.py
@@ -109,7 +109,7 @@ class NaturalDispersion(Weatherer):
             frac_breaking_waves = waves_values[2]
             disp_wave_energy = waves_values[3]
 
-            visc_w = self.waves.water.kinematic_viscosity
+            visc_w = self.waves.water.get('kinematic_viscosity')
             rho_w = self.waves.water.density
 
             # web has different units
-- 
2.43.0


From afcf57a8f7739eff6e84841739577e6cb24e499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:54 +0000
Subject: [PATCH 049/146] fix: oil viscosity and vapour pressure did not follow
 changed oil data

---
 py_gnome/gnome/spills/gnome_oil.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/spills/gnome_oil.py b/py_gnome/gnome/spills/gnome_oil.py
index 9b9fbd5..c606d63 100644
--- a/py_gnome/gnome/spills/gnome_oil.py
+++ b/py_gnome/gnome/spills/gnome_oil.py
@@ -1,5 +1,3 @@
-from functools import lru_cache
-
 import numpy as np
 import warnings
 
@@ -299,6 +297,7 @@ class GnomeOil(Substance):
 
         self._k_v2 = None  # decay constant for viscosity curve
         self._visc_A = None  # constant for viscosity curve
+        self._visc_data = None  # the data these were determined from
         self.k0y = k0y
 
         return kwargs
@@ -372,7 +371,6 @@ class GnomeOil(Substance):
                              "are pseudo components".format(prop))
         setattr(self, prop, np.array(values, dtype=np.float64))
 
-    @lru_cache(2)
     def vapor_pressure(self, temp, atmos_pressure=101325.0):
         """
         the vapor pressure on the PCs at a given temperature
@@ -678,8 +676,13 @@ class GnomeOil(Substance):
 
         temp_k = np.asarray(temp_k)
 
-        if self._k_v2 is None or self._visc_A is None:
+        # recompute if the data has been changed since
+        data = (tuple(self.kvis), tuple(self.kvis_ref_temps),
+                tuple(self.kvis_weathering))
+        if (self._k_v2 is None or self._visc_A is None or
+                self._visc_data != data):
             self.determine_visc_constants()
+            self._visc_data = data
 
         return self._visc_A * np.exp(self._k_v2 / temp_k)
 
-- 
2.43.0


From 9c0e83fa8f6a9f919d6dd0c1feb35c7f64663f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:05 +0000
Subject: [PATCH 050/146] fix: in_water beyond the land raster looked up a cell
 that is not there

---
 py_gnome/gnome/maps/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index 7411f00..cef39f9 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -1022,7 +1022,7 @@ class RasterMap(GnomeMap):
     def _in_water_pixel(self, coord):
         # if  off the raster, so must be in water,
         # unless not on map, which should have already been checked.
-        if not self._off_raster:
+        if self._off_raster(coord):
             return True
         else:
             return not self.raster[coord[0], coord[1]] & self.land_flag
-- 
2.43.0


From 4997c57f56e93977d6ef95675073652bf18b7499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:19 +0000
Subject: [PATCH 051/146] fix: longitudes were not shifted when only some of
 them needed it

---
 py_gnome/gnome/maps/map.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index cef39f9..8cf8a2b 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -1200,17 +1200,11 @@ class RasterMap(GnomeMap):
 # Fixme -- use utilities.convert_longitude
 
 def ShiftLon360(points):
-    try:
-        points[points[:,0] < 0, 0] = points[:, 0] + 360
-    except ValueError:
-        pass
+    points[points[:, 0] < 0, 0] += 360
     return points
 
 def ShiftLon180(points):
-    try:
-        points[points[:,0] > 180, 0] = points[:, 0] - 360
-    except ValueError:
-        pass
+    points[points[:, 0] > 180, 0] -= 360
     return points
 
 class MapFromBNA(RasterMap):
@@ -1291,8 +1285,8 @@ class MapFromBNA(RasterMap):
         tf = ShiftLon360 if shift_lons == 360 else ShiftLon180 if shift_lons == 180 else None
         if tf is not None:
             polygons.TransformData(tf)
-            if map_bounds:
-                map_bounds = tf(np.array(map_bounds)).tolist()
+            if map_bounds is not None and not isinstance(map_bounds, str):
+                map_bounds = tf(np.array(map_bounds, dtype=np.float64)).tolist()
 
         for p in polygons:
             if p.metadata[1].lower().replace(' ', '') == 'spillablearea':
-- 
2.43.0


From e004b0bab784a8d68f5a1664eff854fd9500db46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:12 +0000
Subject: [PATCH 052/146] fix: a spillable area given as a list or array
 crashed the map, or was not shifted with it

---
 py_gnome/gnome/maps/map.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index 8cf8a2b..c026689 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -269,9 +269,7 @@ class GnomeMap(GnomeId):
             # fixme: this should be in the geometry package
             #        -- or stop using PolygonSet
             ps = PolygonSet()
-            try:  #
-                sa[0][0][0]
-            except TypeError:
+            if np.ndim(sa[0][0]) == 0:
                 # probably a single polygon -- put it in a list
                 sa = [sa]
             for poly in sa:
@@ -294,9 +292,7 @@ class GnomeMap(GnomeId):
             self._land_polys = sa
             return
         ps = PolygonSet()
-        try:
-            sa[0][0][0]
-        except TypeError:
+        if np.ndim(sa[0][0]) == 0:
             # probably a single polygon -- put it in a list
             sa = [sa]
         for poly in sa:
@@ -1310,7 +1306,15 @@ class MapFromBNA(RasterMap):
         # determine the size:
         BB = land_polys.bounding_box
 
-        if not spillable_area:  # not passed in
+        # make it a PolygonSet, whatever form it was given in
+        self.spillable_area = (None if spillable_area is None or
+                               len(spillable_area) == 0 else spillable_area)
+        spillable_area = self.spillable_area
+        if tf is not None and spillable_area is not None:
+            spillable_area = spillable_area.Copy()
+            spillable_area.TransformData(tf)
+
+        if spillable_area is None:  # not passed in
             # use the one in the bna
             if len(spillable_area_bna) == 0:
                 # no spillable_area in the file
@@ -1320,7 +1324,7 @@ class MapFromBNA(RasterMap):
 
         # fixme: map bounds might not be a rectangle -- is this doing the right thing?
         if map_bounds is None:
-            if spillable_area:  # add the spillable area to the bounds
+            if spillable_area is not None:  # add the spillable area to the bounds
                 saBB = spillable_area.bounding_box
                 saBB.Merge(BB)
                 map_bounds = saBB.AsPoly()
-- 
2.43.0


From 5fce8870eb2d071640f520a0cb07d9b4ad99fa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:43 +0000
Subject: [PATCH 053/146] fix: NetCDF output of forecast and uncertain sets of
 different sizes was written in the wrong place

---
 py_gnome/gnome/outputters/netcdf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 3d0bf86..a73e8f2 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -753,9 +753,12 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                                                        rg_vars['time'].units,
                                                        rg_vars['time'].calendar)
                     pc = rg_vars['particle_count']
+                    # each file has its own place to go on writing: the
+                    # forecast and uncertain sets can be of different sizes
+                    self._start_idx = int(pc[:idx].sum())
                     pc[idx] = len(sc)
 
-                    _end_idx = self._start_idx + pc[idx]
+                    _end_idx = self._start_idx + len(sc)
 
                     # add the data:
                     for var_name in self.arrays_to_output:
@@ -790,8 +793,6 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
         if not self._write_step:
             return None
 
-        self._start_idx = _end_idx  # set _start_idx for the next timestep
-
         return {'filename': (self.filename,
                              self._u_filename),
                 'time_stamp': time_stamp.isoformat()}
-- 
2.43.0


From c908b29f69368cca68ce9d48f6b12d9542b6f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:43 +0000
Subject: [PATCH 054/146] fix: reading a backwards run's NetCDF output by time
 always gave the first step

---
 py_gnome/gnome/outputters/netcdf.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index a73e8f2..76e4f39 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -947,11 +947,9 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                 if time is not None:
                     time_offset = nc.date2num(time, time_.units,
                                               calendar=time_.calendar)
-                    if time_offset < 0:
-                        'desired time is before start of model'
-                        index = 0
-                    else:
-                        index = abs(time_[:] - time_offset).argmin()
+                    # times run from the start to earlier ones in a
+                    # backwards run, so the offset can be negative
+                    index = abs(time_[:] - time_offset).argmin()
                 elif index is not None:
                     if index < 0:
                         index = len(time_) + index
-- 
2.43.0


From 96a8688325f932effec5721235fe280bef8a779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:43 +0000
Subject: [PATCH 055/146] fix: reading NetCDF output with which_data='most'
 returned no data

---
 py_gnome/gnome/outputters/netcdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 76e4f39..fea301f 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -974,9 +974,11 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                                                   'longitude',
                                                   'depth')]
                 data_arrays.add('positions')
-            elif which_data == 'all':
+            elif which_data in ('all', 'most'):
                 # pull them from the nc file
                 data_arrays = set(data.variables.keys())
+                if which_data == 'most':
+                    data_arrays -= set(klass.usually_skipped_arrays)
 
                 # remove the irrelevant ones:
                 [data_arrays.discard(x) for x in ('time',
-- 
2.43.0


From aa4486bbbc4f7bf52f8b148a416bce8bc6fa53cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:31 +0000
Subject: [PATCH 056/146] fix: NetCDF output kept the array selection of the
 previous run

---
 py_gnome/gnome/outputters/netcdf.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index fea301f..52867b6 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -365,6 +365,9 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                              '{"standard", "most", "all"}')
 
         self.arrays_to_output = set(self.standard_arrays)
+        # what the last run added to or dropped from arrays_to_output
+        self._arrays_added = set()
+        self._arrays_dropped = set()
 
         # this is only updated in prepare_for_model_run if which_data is
         # 'all' or 'most'
@@ -497,6 +500,11 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
 
     def _update_arrays_to_output(self, sc):
         'create list of variables that we want to put in the file'
+        # start from what was asked for, not from what the last run had
+        self.arrays_to_output -= self._arrays_added
+        self.arrays_to_output |= self._arrays_dropped
+        requested = set(self.arrays_to_output)
+
         if self.which_data in ('all', 'most'):
             # get shape and dtype from initailized numpy arrays instead
             # of array_types because some array type shapes are None
@@ -518,6 +526,9 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                 to_remove.add(var_name)
         self.arrays_to_output -= to_remove
 
+        self._arrays_added = self.arrays_to_output - requested
+        self._arrays_dropped = requested - self.arrays_to_output
+
     def prepare_for_model_run(self,
                               model_start_time,
                               spills,
-- 
2.43.0


From 17e86bd1323fa290cce6b3d5dca9ee28a029e3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:42 +0000
Subject: [PATCH 057/146] fix: GeoJSON file of the forecast was overwritten by
 the uncertain set

---
 py_gnome/gnome/outputters/geo_json.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/geo_json.py b/py_gnome/gnome/outputters/geo_json.py
index 1d9c25d..275be07 100644
--- a/py_gnome/gnome/outputters/geo_json.py
+++ b/py_gnome/gnome/outputters/geo_json.py
@@ -163,8 +163,9 @@ class TrajectoryGeoJsonOutput(Outputter):
                        'uncertain': uc_geojson}
 
         if self.output_dir:
-            output_info['output_filename'] = str(self.output_to_file(c_geojson, step_num))
-            self.output_to_file(uc_geojson, step_num)
+            # both sets go in the same file: 'sc_type' tells them apart
+            all_geojson = FeatureCollection(c_features + uc_features)
+            output_info['output_filename'] = str(self.output_to_file(all_geojson, step_num))
 
         return output_info
 
-- 
2.43.0


From 5debc69ba9d73d39978dc362e81b1a57bc5321ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:42 +0000
Subject: [PATCH 058/146] fix: GeoJSON output was rounded with round_data=False

---
 py_gnome/gnome/outputters/geo_json.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/geo_json.py b/py_gnome/gnome/outputters/geo_json.py
index 275be07..379d066 100644
--- a/py_gnome/gnome/outputters/geo_json.py
+++ b/py_gnome/gnome/outputters/geo_json.py
@@ -142,7 +142,8 @@ class TrajectoryGeoJsonOutput(Outputter):
             #   on_land : 3
             #   to_be_removed : 12
             for ix, pos in enumerate(position):
-                feature = Feature(geometry=Point(pos[:2]), id=ix,
+                # the values are already rounded, if they are to be
+                feature = Feature(geometry=Point(pos[:2], precision=15), id=ix,
                                   properties={'status_code': status[ix],
                                               'sc_type': sc_type,
                                               'mass': mass[ix],
@@ -199,7 +200,9 @@ class TrajectoryGeoJsonOutput(Outputter):
 
         # refactored to simply use the correct python type:
         if issubclass(data_array.dtype.type, float):
-            data = data_array.round(self.round_to).astype(float).tolist()
+            if self.round_data:
+                data_array = data_array.round(self.round_to)
+            data = data_array.astype(float).tolist()
         elif issubclass(data_array.dtype.type, np.integer):
             data = data_array.astype(int).tolist()
         else:
-- 
2.43.0


From 2dd4aa5dc645d85edb45512d420c13fec0ece017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:42 +0000
Subject: [PATCH 059/146] fix: zipping Analyst files failed when the last step
 is not written

---
 py_gnome/gnome/outputters/binary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/binary.py b/py_gnome/gnome/outputters/binary.py
index 10bdddf..48088b8 100644
--- a/py_gnome/gnome/outputters/binary.py
+++ b/py_gnome/gnome/outputters/binary.py
@@ -158,7 +158,8 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
 
 
         if islast_step:
-            num_files = self.file_num + 1
+            # the last step is not always written
+            num_files = self.file_num + (1 if self._write_step else 0)
             self._zip_binary_files(num_files)
             self.cleaned_up = True
 
-- 
2.43.0


From 7f37e724c0ae3a1b6895a6b74c52438a1f2eac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:42 +0000
Subject: [PATCH 060/146] fix: Analyst output kept its own files or removed
 those of others at the start of a run

---
 py_gnome/gnome/outputters/binary.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/py_gnome/gnome/outputters/binary.py b/py_gnome/gnome/outputters/binary.py
index 48088b8..6216a49 100644
--- a/py_gnome/gnome/outputters/binary.py
+++ b/py_gnome/gnome/outputters/binary.py
@@ -5,7 +5,7 @@ For use in Gnome Analyst
 
 import os
 import copy
-from glob import glob
+from glob import glob, escape
 import zipfile
 
 import numpy as np
@@ -260,21 +260,12 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
             zipf.close()
 
     def clean_output_files(self):
-        if self.output_dir:
-            files = glob(os.path.join(self.output_dir,
-                                      '*FORCST.*'))
-            for f in files:
+        # only this outputter's own files
+        for kind in ('FORCST', 'UNCRTN'):
+            for f in glob('{0}{1}.*'.format(escape(self.name), kind)):
                 try:
                     os.remove(f)
-                except:
-                    pass
-
-            files = glob(os.path.join(self.output_dir,
-                                      '*UNCRTN.*'))
-            for f in files:
-                try:
-                    os.remove(f)
-                except:
+                except OSError:
                     pass
 
     def post_model_run(self):
-- 
2.43.0


From 467c39bfbe7b93ebdded815bf1acc1270bcfe884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:42 +0000
Subject: [PATCH 061/146] fix: KMZ file was not well formed for names with
 markup characters

---
 py_gnome/gnome/outputters/kmz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/kmz.py b/py_gnome/gnome/outputters/kmz.py
index 073d25b..ae36758 100644
--- a/py_gnome/gnome/outputters/kmz.py
+++ b/py_gnome/gnome/outputters/kmz.py
@@ -6,6 +6,7 @@ kmz  outputter
 from pathlib import Path
 from datetime import timedelta, datetime
 import zipfile
+from xml.sax.saxutils import escape
 import base64
 
 from gnome.basic_types import oil_status
@@ -100,7 +101,7 @@ class KMZOutput(OutputterFilenameMixin, Outputter):
         # create a list to hold what will be the contents of the kml
         self.kml = [kmz_templates.header_template
                     .format(caveat=kmz_templates.caveat,
-                            kml_name=self.kml_name,
+                            kml_name=escape(self.kml_name),
                             valid_timestring=model_start_time.strftime(self.time_formatter),
                             issued_timestring=datetime.now().strftime(self.time_formatter),
                             )
-- 
2.43.0


From 487c6c8dbea447c17936d9d25a804d03b1ba7097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:42 +0000
Subject: [PATCH 062/146] fix: KMZ time spans of backwards runs ended before
 they began

---
 py_gnome/gnome/outputters/kmz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/kmz.py b/py_gnome/gnome/outputters/kmz.py
index ae36758..c4968d9 100644
--- a/py_gnome/gnome/outputters/kmz.py
+++ b/py_gnome/gnome/outputters/kmz.py
@@ -127,9 +127,9 @@ class KMZOutput(OutputterFilenameMixin, Outputter):
                 start_time = sc.current_time_stamp
 
                 if self.output_timestep is None:
-                    end_time = start_time + timedelta(seconds=self.model_timestep)
+                    end_time = start_time + abs(timedelta(seconds=self.model_timestep))
                 else:
-                    end_time = start_time + self.output_timestep
+                    end_time = start_time + abs(self.output_timestep)
 
                 start_time = start_time.isoformat()
                 end_time = end_time.isoformat()
-- 
2.43.0


From 09371da753d6d9cda42897fad6b14269fdaac542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:42 +0000
Subject: [PATCH 063/146] fix: shapefile bundles without zipping held only the
 .shp part

---
 py_gnome/gnome/outputters/shape.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/py_gnome/gnome/outputters/shape.py b/py_gnome/gnome/outputters/shape.py
index 0a9a4a5..0b7633b 100644
--- a/py_gnome/gnome/outputters/shape.py
+++ b/py_gnome/gnome/outputters/shape.py
@@ -235,21 +235,22 @@ class ShapeOutput(Outputter):
         zipf_filename = os.path.join(self.tempdir.name, self.filenamestem)+'_bundle.zip'
         zipf = zipfile.ZipFile(zipf_filename, 'w')
         # Add the main forcast file
-        dir, file_to_zip = os.path.split(self.shapefile_builder_certain.filename)
-        zipf.write(self.shapefile_builder_certain.filename,
-                   arcname=file_to_zip)
+        builders = [self.shapefile_builder_certain]
         if self.include_certain_boundary:
-            dir, file_to_zip = os.path.split(self.shapefile_builder_certain_boundary.filename)
-            zipf.write(self.shapefile_builder_certain_boundary.filename,
-                       arcname=file_to_zip)
+            builders.append(self.shapefile_builder_certain_boundary)
         if uncertain:
-            dir, file_to_zip = os.path.split(self.shapefile_builder_uncertain.filename)
-            zipf.write(self.shapefile_builder_uncertain.filename,
-                       arcname=file_to_zip)
+            builders.append(self.shapefile_builder_uncertain)
             if self.include_uncertain_boundary:
-                dir, file_to_zip = os.path.split(self.shapefile_builder_uncertain_boundary.filename)
-                zipf.write(self.shapefile_builder_uncertain_boundary.filename,
-                           arcname=file_to_zip)
+                builders.append(self.shapefile_builder_uncertain_boundary)
+        for builder in builders:
+            fn = pathlib.Path(builder.filename)
+            if self.zip_output:
+                files = [fn]
+            else:
+                # a shapefile is a set of files (.shp, .shx, .dbf, ...)
+                files = sorted(fn.parent.glob(fn.with_suffix('.*').name))
+            for f in files:
+                zipf.write(f, arcname=f.name)
         zipf.close()
         return zipf_filename
 
-- 
2.43.0


From ee1b6141a1e2edd9b29f3f1d3f5e49dffba65ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:42 +0000
Subject: [PATCH 064/146] fix: output of shapefiles and data packages after a
 run wrote no file

---
 py_gnome/gnome/outputters/outputter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index ad2c172..da2e6cc 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -486,6 +486,9 @@ class Outputter(GnomeId):
             model_time = (self.cache.load_timestep(step_num).items()[0]
                           .current_time_stamp)
 
+        # some outputters only write their files at the end of the run
+        self.post_model_run()
+
     @property
     def middle_of_run(self):
         return self._middle_of_run
-- 
2.43.0


From dc7e66917ddbee52af64ab6a73883dffed217f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:15 +0000
Subject: [PATCH 065/146] fix: elements leaving the map before the uncertainty
 starts stopped the run

The Python wind and current movers tried to delete the removed elements'
entries from their (still empty) uncertainty lists: IndexError.
---
 py_gnome/gnome/movers/py_current_movers.py | 3 ++-
 py_gnome/gnome/movers/py_wind_movers.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index f76dd6f..56efd34 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -391,7 +391,8 @@ class CurrentMover(movers.PyMover):
             to_be_removed = np.where(sc['status_codes'] ==
                                      oil_status.to_be_removed)[0]
 
-            if len(to_be_removed) > 0:
+            # the list is empty until the uncertainty has started
+            if len(to_be_removed) > 0 and len(self._uncertainty_list) > 0:
                 new_uncertainty = np.copy(self._uncertainty_list)
                 #self._uncertainty_list = np.delete(self._uncertainty_list, to_be_removed, axis=0)
                 self._uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)
diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index 46e7d17..e2175a4 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -209,7 +209,8 @@ class WindMover(movers.PyMover):
             to_be_removed = np.where(sc['status_codes'] ==
                                      oil_status.to_be_removed)[0]
 
-            if len(to_be_removed) > 0:
+            # the list is empty until the uncertainty has started
+            if len(to_be_removed) > 0 and len(self.uncertainty_list) > 0:
                 new_uncertainty = np.copy(self.uncertainty_list)
                 self.uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)
 
-- 
2.43.0


From 0500b40fc3e468b9768f6b0506bb20052cb11f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:27 +0000
Subject: [PATCH 066/146] fix: uncertainty of light winds in the Python wind
 mover

Below 1 m/s the wind was multiplied by the random diffusion velocity and
not by the time step, so uncertain elements all but stood still.  Add the
diffusion to the wind, as the C++ mover does.
---
 py_gnome/gnome/movers/py_wind_movers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index e2175a4..84a22ea 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -402,8 +402,9 @@ class WindMover(movers.PyMover):
                 if norm[i] < 1:
                     rand1 = np.random.uniform(-1., 1.)
                     rand2 = np.random.uniform(-1., 1.)
-                    deltas[i,0] = u[i] * self.uncertain_diffusion * rand1
-                    deltas[i,1] = v[i] * self.uncertain_diffusion * rand2
+                    # some diffusion rather than nothing (as in WindMover_c)
+                    deltas[i,0] = new_deltas[i,0] + self.uncertain_diffusion * rand1 * time_step
+                    deltas[i,1] = new_deltas[i,1] + self.uncertain_diffusion * rand2 * time_step
 
         else:
             raise ValueError("something wrong with uncertainty")
-- 
2.43.0


From 3eae0b1f27c8009b4e482588f7d50376365854df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:45 +0000
Subject: [PATCH 067/146] fix: uncertain currents could leave their bounds

u was a view of the array being written, so the northward part of an
uncertain element's move was computed from its already changed eastward
part.
---
 py_gnome/gnome/movers/py_current_movers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index 56efd34..c7fd808 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -321,8 +321,8 @@ class CurrentMover(movers.PyMover):
             # make a copy of deltas
             new_deltas = deltas.copy()
             unrec = self._uncertainty_list
-            u = new_deltas[:, 0]
-            v = new_deltas[:, 1]
+            u = deltas[:, 0]
+            v = deltas[:, 1]
             lengthS = np.hypot(u, v)
 
             #alpha = unrec.downStream
-- 
2.43.0


From df838d0483f2fffb16d6876fcd0109ebb6f2e342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:35 +0000
Subject: [PATCH 068/146] fix: time offset ignored when interpolating in text
 current files

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 933dbe1..d9233d6 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -11208,11 +11208,11 @@ VelocityRec TimeGridCurRect_c::GetScaledPatValue(const Seconds& model_time, Worl
 	{
 		// Calculate the time weight factor
 		if (GetNumFiles()>1 && fOverLap)
-			startTime = fOverLapStartTime;
+			startTime = fOverLapStartTime + fTimeShift;
 		else
-			startTime = (*fTimeDataHdl)[fStartData.timeIndex].time;
+			startTime = (*fTimeDataHdl)[fStartData.timeIndex].time + fTimeShift;
 		//startTime = (*fTimeDataHdl)[fStartData.timeIndex].time;
-		endTime = (*fTimeDataHdl)[fEndData.timeIndex].time;
+		endTime = (*fTimeDataHdl)[fEndData.timeIndex].time + fTimeShift;
 		timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 		
 		// Calculate the interpolated velocity at the point
@@ -12667,10 +12667,10 @@ VelocityRec TimeGridCurTri_c::GetScaledPatValue(const Seconds& model_time, World
 	{
 		// Calculate the time weight factor
 		if (GetNumFiles()>1 && fOverLap)
-			startTime = fOverLapStartTime;
+			startTime = fOverLapStartTime + fTimeShift;
 		else
-			startTime = (*fTimeDataHdl)[fStartData.timeIndex].time;
-		endTime = (*fTimeDataHdl)[fEndData.timeIndex].time;
+			startTime = (*fTimeDataHdl)[fStartData.timeIndex].time + fTimeShift;
+		endTime = (*fTimeDataHdl)[fEndData.timeIndex].time + fTimeShift;
 		timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 		
 		// Calculate the interpolated velocity at the point
@@ -12785,10 +12785,10 @@ VelocityRec TimeGridCurTri_c::GetScaledPatValue3D(const Seconds& model_time,Inte
 	{
 		// Calculate the time weight factor
 		if (GetNumFiles()>1 && fOverLap)
-			startTime = fOverLapStartTime;
+			startTime = fOverLapStartTime + fTimeShift;
 		else
-			startTime = (*fTimeDataHdl)[fStartData.timeIndex].time;
-		endTime = (*fTimeDataHdl)[fEndData.timeIndex].time;
+			startTime = (*fTimeDataHdl)[fStartData.timeIndex].time + fTimeShift;
+		endTime = (*fTimeDataHdl)[fEndData.timeIndex].time + fTimeShift;
 		timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 		
 		if (pt1depthIndex1!=-1)
-- 
2.43.0


From 9e3832f664b47c940b34446b3350cd089d6a5bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:35 +0000
Subject: [PATCH 069/146] fix: unreadable velocities in PtCur files were taken
 as read

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index d9233d6..50394a2 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -13287,6 +13287,7 @@ OSErr TimeGridCurTri_c::ReadTimeData(long index,
 						line, NEWLINESTRING);
 				delete[] s1;
 				s1 = 0;
+				err = -1;
 				goto done;
 			}
 
-- 
2.43.0


From f3db4bc9b9e7f740d55afa740ca03f4d6a291f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:48 +0000
Subject: [PATCH 070/146] fix: units stated in text grid current files were
 ignored

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 50394a2..ee3ebd5 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -12129,6 +12129,7 @@ OSErr TimeGridCurRect_c::ReadTimeData(long index,
 	long offset,lengthToRead;
 	long totalNumberOfVels = fNumRows * fNumCols;
 	char *sectionOfFile = 0;
+	double velConversion = fUserUnits == kUndefined ? 1. : speedconversion(fUserUnits);	// from the units the file states
 
 	CHARH h = 0;
 	VelocityFH velH = 0;
@@ -12249,8 +12250,8 @@ OSErr TimeGridCurRect_c::ReadTimeData(long index,
 		}
 
 		index = (rowNum - 1) * fNumCols + colNum - 1;
-		(*velH)[index].u = vel.u; // units ??? assumed m/s
-		(*velH)[index].v = vel.v; 
+		(*velH)[index].u = vel.u * velConversion; // to m/s
+		(*velH)[index].v = vel.v * velConversion;
 	}
 
 	*velocityH = velH;
-- 
2.43.0


From 0426a970bb991a15561f33e9c8811a1382aad418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:49 +0000
Subject: [PATCH 071/146] fix: RK2 in the native grid current mover used half
 the northward velocity

---
 py_gnome/lib_gnome/GridCurrentMover_c.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/py_gnome/lib_gnome/GridCurrentMover_c.cpp b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
index fe47b76..96cfb2d 100644
--- a/py_gnome/lib_gnome/GridCurrentMover_c.cpp
+++ b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
@@ -324,18 +324,16 @@ WorldPoint3D GridCurrentMover_c::GetMove(const Seconds& model_time, Seconds time
 	}
 	else if (num_method == TRAPEZOID)
 	{
-		WorldPoint3D startPoint, p1, deltaPoint;
+		WorldPoint3D startPoint, p1, deltaPoint = {{0,0},0.};
 		startPoint.p = (*theLE).p;
 		startPoint.z = (*theLE).z;
 		p1.p = (*theLE).p;
 		p1.z = (*theLE).z;
 		VelocityRec v0, v1;
 		double dLong, dLat;
-		if(!fIsOptimizedForStep)
-		{
-			err = timeGrid->SetInterval(errmsg, model_time + timeStep);
-			if (err) return deltaPoint;
-		}
+		// the two times may lie in different intervals
+		err = timeGrid->SetInterval(errmsg, model_time);
+		if (err) return deltaPoint;
 		v0 = timeGrid->GetScaledPatValue(model_time, startPoint);
 		v0.u *= fCurScale;
 		v0.v *= fCurScale;
@@ -343,13 +341,15 @@ WorldPoint3D GridCurrentMover_c::GetMove(const Seconds& model_time, Seconds time
 		dLat  =  (v0.v / METERSPERDEGREELAT) * timeStep;
 		p1.p.pLong = p1.p.pLong + dLong * 1000000;
 		p1.p.pLat = p1.p.pLat + dLat * 1000000;
+		err = timeGrid->SetInterval(errmsg, model_time + timeStep);
+		if (err) return deltaPoint;
 		v1 = timeGrid->GetScaledPatValue(model_time + timeStep, p1);
 		v1.u *= fCurScale;
 		v1.v *= fCurScale;
 		v1.u += v0.u;
 		v1.v += v0.v;
 		dLong = ((v1.u / METERSPERDEGREELAT) * timeStep/2) / LongToLatRatio3 (startPoint.p.pLat);
-		dLat  =  (v0.v / METERSPERDEGREELAT) * timeStep/2;
+		dLat  =  (v1.v / METERSPERDEGREELAT) * timeStep/2;
 		deltaPoint.p.pLong = dLong * 1000000;
 		deltaPoint.p.pLat  = dLat  * 1000000;
 		return deltaPoint;
-- 
2.43.0


From 5ff19f55475e0d377f1d7563dc6734b7edcfe71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:00 +0000
Subject: [PATCH 072/146] fix: uncertainty ignored by RK2 and RK4 in the native
 grid current mover

---
 py_gnome/lib_gnome/GridCurrentMover_c.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py_gnome/lib_gnome/GridCurrentMover_c.cpp b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
index 96cfb2d..2263dc7 100644
--- a/py_gnome/lib_gnome/GridCurrentMover_c.cpp
+++ b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
@@ -337,6 +337,8 @@ WorldPoint3D GridCurrentMover_c::GetMove(const Seconds& model_time, Seconds time
 		v0 = timeGrid->GetScaledPatValue(model_time, startPoint);
 		v0.u *= fCurScale;
 		v0.v *= fCurScale;
+		if(leType == UNCERTAINTY_LE)
+			AddUncertainty(setIndex,leIndex,&v0,timeStep,false);
 		dLong = ((v0.u / METERSPERDEGREELAT) * timeStep) / LongToLatRatio3 (startPoint.p.pLat);
 		dLat  =  (v0.v / METERSPERDEGREELAT) * timeStep;
 		p1.p.pLong = p1.p.pLong + dLong * 1000000;
@@ -346,6 +348,8 @@ WorldPoint3D GridCurrentMover_c::GetMove(const Seconds& model_time, Seconds time
 		v1 = timeGrid->GetScaledPatValue(model_time + timeStep, p1);
 		v1.u *= fCurScale;
 		v1.v *= fCurScale;
+		if(leType == UNCERTAINTY_LE)
+			AddUncertainty(setIndex,leIndex,&v1,timeStep,false);
 		v1.u += v0.u;
 		v1.v += v0.v;
 		dLong = ((v1.u / METERSPERDEGREELAT) * timeStep/2) / LongToLatRatio3 (startPoint.p.pLat);
@@ -382,6 +386,8 @@ WorldPoint3D GridCurrentMover_c::GetMove(const Seconds& model_time, Seconds time
 			scaledVel[i] = timeGrid->GetScaledPatValue(model_time + (Seconds)(timeStep*RK_dy_Factors[i]), add_two_WP3D(startPoint, RKDelta));
 			scaledVel[i].u *= fCurScale;
 			scaledVel[i].v *= fCurScale;
+			if(leType == UNCERTAINTY_LE)
+				AddUncertainty(setIndex,leIndex,&scaledVel[i],timeStep,false);
 			dLong = ((scaledVel[i].u / METERSPERDEGREELAT) * timeStep) / LongToLatRatio3 (startPoint.p.pLat);
 			dLat  =  (scaledVel[i].v / METERSPERDEGREELAT) * timeStep;
 			deltaD[i+1].p.pLong = dLong * 1000000;
-- 
2.43.0


From 75bb758647c79d6a13b713cb06b60a74609ac9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:58 +0000
Subject: [PATCH 073/146] fix: time offset ignored when interpolating in NetCDF
 curvilinear and triangular currents

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index ee3ebd5..5e95a0c 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -2835,7 +2835,7 @@ VelocityRec TimeGridVelCurv_c::GetInterpolatedValue(const Seconds& model_time, I
 		timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 		
 		// Calculate the time weight factor
-		if (fTimeAlpha==-1)
+		if (fTimeAlpha==-1 && fModelStartTime!=0)
 		{
 			//Seconds relTime = time - model->GetStartTime();
 			relTime = model_time - fModelStartTime;
@@ -2844,7 +2844,7 @@ VelocityRec TimeGridVelCurv_c::GetInterpolatedValue(const Seconds& model_time, I
 			//timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 			timeAlpha = (endTime - relTime)/(double)(endTime - startTime);
 		}
-		else
+		else if (fTimeAlpha!=-1)
 			timeAlpha = fTimeAlpha;
 
 		if (pt1depthIndex1!=-1)
@@ -7799,7 +7799,7 @@ VelocityRec TimeGridVelIce_c::GetInterpolatedValue(const Seconds& model_time, In
 		timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 		
 		// Calculate the time weight factor
-		if (fTimeAlpha==-1)
+		if (fTimeAlpha==-1 && fModelStartTime!=0)
 		{
 			//Seconds relTime = time - model->GetStartTime();
 			relTime = model_time - fModelStartTime;
@@ -7808,7 +7808,7 @@ VelocityRec TimeGridVelIce_c::GetInterpolatedValue(const Seconds& model_time, In
 			//timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 			timeAlpha = (endTime - relTime)/(double)(endTime - startTime);
 		}
-		else
+		else if (fTimeAlpha!=-1)
 			timeAlpha = fTimeAlpha;
 
 		pt1interp.u = interpolationVal.alpha1*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex1).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex1).u); 
@@ -8803,7 +8803,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue(const Seconds& model_time, World
 		
 		// Calculate the time weight factor
  		// fModelStartTime needs to be set in the mover
-		if (fTimeAlpha==-1)
+		if (fTimeAlpha==-1 && fModelStartTime!=0)
 		{
 			//Seconds relTime = time - model->GetStartTime();
 			relTime = model_time - fModelStartTime;
@@ -8812,7 +8812,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue(const Seconds& model_time, World
 			//timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 			timeAlpha = (endTime - relTime)/(double)(endTime - startTime);
 		}
-		else
+		else if (fTimeAlpha!=-1)
 			timeAlpha = fTimeAlpha;
 
 		// Calculate the interpolated velocity at the point
@@ -8972,7 +8972,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue3D(const Seconds& model_time, Int
 		timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 		
 		// Calculate the time weight factor
-		if (fTimeAlpha==-1)
+		if (fTimeAlpha==-1 && fModelStartTime!=0)
 		{
 			//Seconds relTime = time - model->GetStartTime();
 			relTime = model_time - fModelStartTime;
@@ -8981,7 +8981,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue3D(const Seconds& model_time, Int
 			//timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 			timeAlpha = (endTime - relTime)/(double)(endTime - startTime);
 		}
-		else
+		else if (fTimeAlpha!=-1)
 			timeAlpha = fTimeAlpha;
 
 		if (pt1depthIndex1!=-1)
-- 
2.43.0


From 461753d9366b9e7d274d7dd32b21257a048c75b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:54 +0000
Subject: [PATCH 074/146] fix: uninitialised point number when a place lies
 beyond the border of a triangular grid

---
 py_gnome/lib_gnome/DagTreeIO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/lib_gnome/DagTreeIO.cpp b/py_gnome/lib_gnome/DagTreeIO.cpp
index ee408cb..6a947d8 100644
--- a/py_gnome/lib_gnome/DagTreeIO.cpp
+++ b/py_gnome/lib_gnome/DagTreeIO.cpp
@@ -572,6 +572,7 @@ long WhatTriIsPtIn(DAGHdl treeH,TopologyHdl topH, LongPointHdl ptsH,LongPoint pt
 
 			if(triRight == -1)
 			{
+				thirdPoint = (*longH)[thirdPointIndex];
 				i=-8;
 				goto checkTriPts;	
 				//return -1;
-- 
2.43.0


From 7d2c6a52616e5d4b9275a21e2fcc127276b28a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:11 +0000
Subject: [PATCH 075/146] fix: BNA points with a single coordinate were read as
 if both were the same

---
 py_gnome/gnome/utilities/file_tools/haz_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/file_tools/haz_files.py b/py_gnome/gnome/utilities/file_tools/haz_files.py
index 5c0c31f..884d041 100644
--- a/py_gnome/gnome/utilities/file_tools/haz_files.py
+++ b/py_gnome/gnome/utilities/file_tools/haz_files.py
@@ -73,10 +73,11 @@ def GetNextBNAPolygon(f, dtype=np.float64):
                 raise ValueError(f"empty coords line in {header.strip()}. "
                                  "check number of vertices")
             try:
-                points[i, :] = [float(j) for j in line.split(',')]
+                x, y = [float(j) for j in line.split(',')]
             except ValueError as err:
                 raise ValueError(f"incorrect coords in line: {line} "
                                  f"in poly: {header}") from err
+            points[i, :] = (x, y)
 
     if poly_type == 'polygon':
         # first and last points are the same in BNA,
-- 
2.43.0


From f6829a58b962e66a98249f3c01cf26eefeebcda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:11 +0000
Subject: [PATCH 076/146] fix: splot files with a single line could not be read

---
 py_gnome/gnome/spills/release.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 9f3266a..45e3c36 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -1653,7 +1653,7 @@ def release_from_splot_data(release_time, filename):
     For each (longitude, latitude) release num_LEs_per_splot points
     '''
     # use numpy loadtxt - much faster
-    pos = np.loadtxt(filename)
+    pos = np.loadtxt(filename, ndmin=2)
     num_per_pos = np.asarray(pos[:, 2], dtype=int)
     pos[:, 2] = 0
 
-- 
2.43.0


From 59107c8444e9f3e89c7d5fde3085a54bcbaac4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:11 +0000
Subject: [PATCH 077/146] fix: blank lines in files of times

---
 py_gnome/gnome/environment/gridded_objects_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/gridded_objects_base.py b/py_gnome/gnome/environment/gridded_objects_base.py
index cb96b83..402ea62 100644
--- a/py_gnome/gnome/environment/gridded_objects_base.py
+++ b/py_gnome/gnome/environment/gridded_objects_base.py
@@ -135,7 +135,7 @@ class Time(gridded.time.Time, GnomeId):
         with open(filename, 'r') as fd:
             for line in fd:
                 line = line.rstrip()
-                if line is not None:
+                if line:
                     t.append(datetime.datetime.strptime(line, '%c'))
 
         return Time(t)
-- 
2.43.0


From e124ce926a933f743b824c2abd6c48a75033e1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:12 +0000
Subject: [PATCH 078/146] fix: from_gridcur ignored extrapolation_is_allowed

---
 py_gnome/gnome/environment/gridcur.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/gridcur.py b/py_gnome/gnome/environment/gridcur.py
index f6abe9f..212f80d 100644
--- a/py_gnome/gnome/environment/gridcur.py
+++ b/py_gnome/gnome/environment/gridcur.py
@@ -68,7 +68,10 @@ def from_gridcur(filename,
     # import here to avoide circular import
     from .environment_objects import GridCurrent
     gc = GridCurrent.__new__(GridCurrent)
-    init_from_gridcur(gc, filename, **kwargs)
+    init_from_gridcur(gc,
+                      filename,
+                      extrapolation_is_allowed=extrapolation_is_allowed,
+                      **kwargs)
     return gc
 
 
-- 
2.43.0


From d6c2e831f3d852d01b144be3cb80dce630324fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:12 +0000
Subject: [PATCH 079/146] fix: rows and columns below 1 in gridcur files were
 taken from the end

---
 py_gnome/gnome/environment/gridcur.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/gnome/environment/gridcur.py b/py_gnome/gnome/environment/gridcur.py
index 212f80d..ded8c23 100644
--- a/py_gnome/gnome/environment/gridcur.py
+++ b/py_gnome/gnome/environment/gridcur.py
@@ -182,6 +182,8 @@ def read_file(filename):
                 col = int(data[1]) - 1
                 u = float(data[2])
                 v = float(data[3])
+                if row < 0 or col < 0:
+                    raise ValueError(f"rows and columns start at 1: {line}")
                 U[row, col] = u
                 V[row, col] = v
                 line = infile.readline()
-- 
2.43.0


From 924241f16e549610c389af901118ba993912edba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:42 +0000
Subject: [PATCH 080/146] fix: blank lines in gridcur files

---
 py_gnome/gnome/environment/gridcur.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/gridcur.py b/py_gnome/gnome/environment/gridcur.py
index ded8c23..1ff37f5 100644
--- a/py_gnome/gnome/environment/gridcur.py
+++ b/py_gnome/gnome/environment/gridcur.py
@@ -148,6 +148,8 @@ def read_file(filename):
     grid_info = {}
     try:
         with open(filename, encoding='utf-8') as infile:
+            # blank lines carry nothing
+            infile = (line for line in infile if line.strip())
             # read the header
             for line in infile:
                 # ignore lines before the header
@@ -173,7 +175,7 @@ def read_file(filename):
                     lon, lat, U, V = make_grid_arrays(grid_info)
                     data_u.append(U)
                     data_v.append(V)
-                    line = infile.readline()
+                    line = next(infile, '')
                     continue
                 elif not line:
                     break
@@ -186,7 +188,7 @@ def read_file(filename):
                     raise ValueError(f"rows and columns start at 1: {line}")
                 U[row, col] = u
                 V[row, col] = v
-                line = infile.readline()
+                line = next(infile, '')
 
             # put the velocities together in a single array
             data_u = np.array(data_u)
-- 
2.43.0


From 78adf7bbd61aa189c4b48eb9304674eb6803147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:43 +0000
Subject: [PATCH 081/146] fix: splot files released 1000 elements whatever they
 say

---
 py_gnome/gnome/spills/release.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 45e3c36..147fe0b 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -1661,4 +1661,5 @@ def release_from_splot_data(release_time, filename):
     start_positions = np.repeat(pos, num_per_pos, axis=0)
 
     return Release(release_time=release_time,
+                   num_elements=len(start_positions),
                    custom_positions=start_positions)
-- 
2.43.0


From 0fe9b32d33eebeae96f898d9a142eeb5dc92d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:23 +0000
Subject: [PATCH 082/146] fix: objects with braces in their name could not be
 saved and loaded

---
 py_gnome/gnome/persist/base_schema.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index 287260d..20f8f07 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -992,13 +992,12 @@ def gen_unique_filename(filename_in, zipfile_):
     filename_in = sanitize_string(filename_in)
     existing_files = set(zipfile_.namelist())
     file_name, extension = get_file_name_ext(filename_in)
-    fmtstring = file_name + '{0}' + extension
-    new_fn = fmtstring.format('')
+    new_fn = file_name + extension
 
     for i in range(255):
         if new_fn not in existing_files:
             return new_fn
         else:
-            new_fn = fmtstring.format(' (' + str(i) + ')')
+            new_fn = '{0} ({1}){2}'.format(file_name, i, extension)
 
     raise ValueError('Same file name used too many times')
-- 
2.43.0


From ec951e4caf93974b0c90e6389f7f887b5e7870ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:23 +0000
Subject: [PATCH 083/146] fix: loading an object from a .json file always
 failed

---
 py_gnome/gnome/gnomeobject.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index bbe17c3..ef6b471 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -968,15 +968,14 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                 with open(saveloc, 'r') as fp:
                     json_ = json.load(fp)
 
-                if 'obj_type' in json:
-                    if class_from_objtype(json_['obj_type']) is not cls:
-                        raise ValueError("{} does not contain a {}"
-                                         .format(saveloc, cls.__name__))
-                    else:
-                        folder = os.path.dirname(saveloc)
+                if ('obj_type' not in json_ or
+                        class_from_objtype(json_['obj_type']) is not cls):
+                    raise ValueError("{} does not contain a {}"
+                                     .format(saveloc, cls.__name__))
+
+                folder = os.path.dirname(saveloc)
 
-                        return cls._schema().load(json_, saveloc=folder,
-                                                  refs=refs)
+                return cls._schema().load(json_, saveloc=folder, refs=refs)
         elif isinstance(saveloc, zipfile.ZipFile):
             # saveloc is an already open zip archive
             # extract to a temporary directory and retry load
-- 
2.43.0


From 0479d7a4f4df99bc6ad01343d5813b5c0b924cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:23 +0000
Subject: [PATCH 084/146] fix: ConstantArea lost its area when saved, and could
 not be loaded

---
 py_gnome/gnome/weatherers/spreading.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_gnome/gnome/weatherers/spreading.py b/py_gnome/gnome/weatherers/spreading.py
index a06a0d5..36d6d83 100644
--- a/py_gnome/gnome/weatherers/spreading.py
+++ b/py_gnome/gnome/weatherers/spreading.py
@@ -687,12 +687,17 @@ class FayGravityViscous(Weatherer):
         sc.update_from_fatedataview()
 
 
+class ConstantAreaSchema(WeathererSchema):
+    area = SchemaNode(Float())
+
+
 class ConstantArea(Weatherer):
     '''
     Used for testing and diagnostics
     - must be manually hooked up
     '''
     _ref_as = 'spreading'
+    _schema = ConstantAreaSchema
 
     def __init__(self, area, **kwargs):
         self.area = area
-- 
2.43.0


From d2831753a89b850ed82ad2babd9bcab968f1f0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:23 +0000
Subject: [PATCH 085/146] fix: empty strings came back from a document as
 colander.drop

---
 py_gnome/gnome/persist/base_schema.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index 20f8f07..7db3146 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -89,6 +89,9 @@ class ObjType(SchemaType):
             else:
                 sub_result = callback(subnode, subval)
 
+            if sub_result is drop:
+                continue
+
             result[name] = sub_result
 
         if self.unknown == 'raise':
-- 
2.43.0


From fda56fa5fec4cd3d42fdcd89c262c7d71d15049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:23 +0000
Subject: [PATCH 086/146] fix: density of a non weathering substance was lost
 when saved

---
 py_gnome/gnome/spills/substance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/substance.py b/py_gnome/gnome/spills/substance.py
index fb81d66..95d4c15 100644
--- a/py_gnome/gnome/spills/substance.py
+++ b/py_gnome/gnome/spills/substance.py
@@ -57,7 +57,7 @@ class SubstanceSchema(ObjTypeSchema):
 
 
 class NonWeatheringSubstanceSchema(SubstanceSchema):
-    pass
+    standard_density = SchemaNode(Float())
 
 
 class Substance(GnomeId):
-- 
2.43.0


From a7e00da274afd6e2c16539a3d9302e191a097caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:53 +0000
Subject: [PATCH 087/146] fix: models with recorded beaching could not be saved

---
 py_gnome/gnome/weatherers/manual_beaching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/manual_beaching.py b/py_gnome/gnome/weatherers/manual_beaching.py
index 0433a1f..226894d 100644
--- a/py_gnome/gnome/weatherers/manual_beaching.py
+++ b/py_gnome/gnome/weatherers/manual_beaching.py
@@ -22,7 +22,7 @@ from gnome.persist import (validators, base_schema, DefaultTupleSchema,
 
 from .core import WeathererSchema
 from .cleanup import RemoveMass
-from gnome.environment.environment import WaterSchema
+from gnome.environment import WaterSchema
 
 
 class BeachingTupleSchema(DefaultTupleSchema):
-- 
2.43.0


From a8222857217a095e00b31d7053288a1dd55a6eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:53 +0000
Subject: [PATCH 088/146] fix: updating a RunningAverage from its own document
 failed

---
 py_gnome/gnome/environment/running_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/running_average.py b/py_gnome/gnome/environment/running_average.py
index 9a1180f..d9047c3 100644
--- a/py_gnome/gnome/environment/running_average.py
+++ b/py_gnome/gnome/environment/running_average.py
@@ -63,7 +63,7 @@ class RunningAverageSchema(base_schema.ObjTypeSchema):
     'Time series object schema'
     name = 'running average'
     timeseries = TimeSeriesSchema(
-        missing=drop, save=True, update=True
+        missing=drop, save=True, update=False
     )
     past_hours_to_average = SchemaNode(Float(), missing=drop)
     wind = WindSchema(
-- 
2.43.0


From 213b4105ba7e7e11af41847cc7b4e7532c111ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:53 +0000
Subject: [PATCH 089/146] fix: GridRelease could not be loaded

---
 py_gnome/gnome/spills/release.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 147fe0b..6030aaa 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -1033,7 +1033,8 @@ class GridRelease(Release):
 
     _schema = GridReleaseSchema
 
-    def __init__(self, release_time, bounds, resolution, release_mass=0):
+    def __init__(self, release_time, bounds, resolution, release_mass=0,
+                 **kwargs):
         """
         Release from a 2-D grid of points.
 
@@ -1072,8 +1073,9 @@ class GridRelease(Release):
         super().__init__(release_time=release_time,
                          # custom_positions=positions,
                          # num_elements=len(positions),
-                         release_mass=release_mass
-                         )
+                         release_mass=release_mass,
+                         **kwargs)
+
     @property
     def num_elements(self):
         res = self.resolution
-- 
2.43.0


From f304f7a9d160dba302ef5116b7d919dac6624935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:53 +0000
Subject: [PATCH 090/146] fix: SubsurfaceRelease lost its droplet sizes when
 saved, and could not be loaded

---
 py_gnome/gnome/spills/release.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 6030aaa..4f60621 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -30,12 +30,17 @@ from colander import (String, SchemaNode, SequenceSchema, drop, Int, Float,
                       Boolean)
 
 from gnome.persist.base_schema import (ObjTypeSchema, WorldPoint, FeatureCollectionSchema,
-                                       LongLatBounds, IntPair)
+                                       LongLatBounds, IntPair,
+                                       GeneralGnomeObjectSchema)
 from gnome.persist.extend_colander import LocalDateTime, FilenameSchema
 
 from gnome.basic_types import world_point_type
 from gnome.array_types import gat
 from gnome.utilities.plume import Plume, PlumeGenerator
+from gnome.utilities.distributions import (UniformDistributionSchema,
+                                           NormalDistributionSchema,
+                                           LogNormalDistributionSchema,
+                                           WeibullDistributionSchema)
 
 
 from gnome.outputters import NetCDFOutput
@@ -1433,6 +1438,14 @@ class SubsurfaceReleaseSchema(BaseReleaseSchema):
     end_position = WorldPoint(
         missing=drop, save=True, update=True
     )
+    distribution = GeneralGnomeObjectSchema(
+        save=True, update=False, save_reference=True,
+        acceptable_schemas=[UniformDistributionSchema,
+                            NormalDistributionSchema,
+                            LogNormalDistributionSchema,
+                            WeibullDistributionSchema]
+    )
+    distribution_type = SchemaNode(String(), save=True, update=False)
     description = 'SubsurfaceRelease object schema'
 
 class SubsurfaceRelease(PointLineRelease):
@@ -1466,9 +1479,9 @@ class SubsurfaceRelease(PointLineRelease):
 
         # remove plume_initializers method and move stuff here
         if distribution_type == 'droplet_size':
-               self._init_rise_vel = InitRiseVelFromDropletSizeFromDist(distribution=distribution, **kwargs)
+               self._init_rise_vel = InitRiseVelFromDropletSizeFromDist(distribution=distribution)
         elif distribution_type == 'rise_velocity':
-               self._init_rise_vel = InitRiseVelFromDist(distribution=distribution,**kwargs)
+               self._init_rise_vel = InitRiseVelFromDist(distribution=distribution)
         else:
                raise TypeError('distribution_type must be either droplet_size or '
                                'rise_velocity')
-- 
2.43.0


From 98ce86fdede489a399c8c415f022ec439d3dd4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:09 +0000
Subject: [PATCH 091/146] fix: time offset and integration method of gridded
 movers were lost when saved; delays lost a second

---
 py_gnome/gnome/movers/c_current_movers.py | 26 ++++++++++++++---------
 py_gnome/gnome/movers/c_wind_movers.py    | 15 +++++++------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/py_gnome/gnome/movers/c_current_movers.py b/py_gnome/gnome/movers/c_current_movers.py
index 91e3f2c..bff05dd 100644
--- a/py_gnome/gnome/movers/c_current_movers.py
+++ b/py_gnome/gnome/movers/c_current_movers.py
@@ -71,7 +71,7 @@ class CurrentMoversBase(CyMover):
                                     self.mover.uncertain_time_delay / 3600.,
                                     lambda self, val:
                                     setattr(self.mover, 'uncertain_time_delay',
-                                            val * 3600.))
+                                            round(val * 3600.)))
 
     def get_triangles(self):
         """
@@ -444,9 +444,12 @@ class c_GridCurrentMoverSchema(CurrentMoversBaseSchema):
     extrapolate = SchemaNode(
         Bool(), missing=drop, save=True, update=True
     )
-    # time_offset = SchemaNode(
-    #     Float(), missing=drop, save=True, update=True
-    # )
+    time_offset = SchemaNode(
+        Float(), missing=drop, save=True, update=True
+    )
+    num_method = SchemaNode(
+        String(), missing=drop, save=True, update=True
+    )
     is_data_on_cells = SchemaNode(
         Bool(), missing=drop, read_only=True
     )
@@ -531,7 +534,7 @@ class c_GridCurrentMover(CurrentMoversBase):
 
         self.mover.text_read(filename, topology_file)
         self.mover.extrapolate_in_time(extrapolate)
-        self.mover.offset_time(time_offset * 3600.)
+        self.mover.offset_time(round(time_offset * 3600.))
 
         self.num_method = num_method
 
@@ -589,7 +592,7 @@ class c_GridCurrentMover(CurrentMoversBase):
     time_offset = property(lambda self: self.mover.time_offset / 3600.,
                            lambda self, val: setattr(self.mover,
                                                      'time_offset',
-                                                     val * 3600.))
+                                                     round(val * 3600.)))
 
     @property
     def data_start(self):
@@ -677,7 +680,7 @@ class c_GridCurrentMover(CurrentMoversBase):
         :param offset_time=0: allow data to be in GMT with a time zone offset
                               (hours).
         """
-        self.mover.offset_time(time_offset * 3600.)
+        self.mover.offset_time(round(time_offset * 3600.))
 
     def get_offset_time(self):
         """
@@ -721,6 +724,9 @@ class IceMoverSchema(CurrentMoversBaseSchema):
     extrapolate = SchemaNode(
         Bool(), missing=drop, save=True, update=True
     )
+    time_offset = SchemaNode(
+        Float(), missing=drop, save=True, update=True
+    )
 
 
 class IceMover(CurrentMoversBase):
@@ -792,7 +798,7 @@ class IceMover(CurrentMoversBase):
         self.extrapolate = extrapolate
         self.mover.extrapolate_in_time(extrapolate)
 
-        self.mover.offset_time(time_offset * 3600.)
+        self.mover.offset_time(round(time_offset * 3600.))
         self.uncertain_along = uncertain_along
         self.uncertain_cross = uncertain_cross
         self.current_scale = current_scale
@@ -844,7 +850,7 @@ class IceMover(CurrentMoversBase):
     time_offset = property(lambda self: self.mover.time_offset / 3600.,
                            lambda self, val: setattr(self.mover,
                                                      'time_offset',
-                                                     val * 3600.))
+                                                     round(val * 3600.)))
 
     def get_grid_data(self):
         if self.mover._is_triangle_grid():
@@ -985,7 +991,7 @@ class IceMover(CurrentMoversBase):
         :param offset_time=0: allow data to be in GMT with a time zone offset
                               (hours).
         """
-        self.mover.offset_time(time_offset * 3600.)
+        self.mover.offset_time(round(time_offset * 3600.))
 
     def get_offset_time(self):
         """
diff --git a/py_gnome/gnome/movers/c_wind_movers.py b/py_gnome/gnome/movers/c_wind_movers.py
index 5271dbb..637dbef 100644
--- a/py_gnome/gnome/movers/c_wind_movers.py
+++ b/py_gnome/gnome/movers/c_wind_movers.py
@@ -124,7 +124,7 @@ class WindMoversBase(CyMover):
 
     @uncertain_time_delay.setter
     def uncertain_time_delay(self, val):
-        self.mover.uncertain_time_delay = self._hours_to_seconds(val)
+        self.mover.uncertain_time_delay = round(self._hours_to_seconds(val))
 
     def prepare_for_model_step(self, sc, time_step, model_time_datetime):
         """
@@ -335,6 +335,9 @@ class c_GridWindMoverSchema(WindMoversBaseSchema):
     extrapolate = SchemaNode(
         Bool(), missing=drop, save=True, update=True
     )
+    time_offset = SchemaNode(
+        Float(), missing=drop, save=True, update=True
+    )
 
 
 class c_GridWindMover(WindMoversBase):
@@ -385,7 +388,7 @@ class c_GridWindMover(WindMoversBase):
         self.topology_file = topology_file
 
         self.mover.extrapolate_in_time(extrapolate)
-        self.mover.offset_time(time_offset * 3600.)
+        self.mover.offset_time(round(time_offset * 3600.))
 
     @property
     def data_start(self):
@@ -416,7 +419,7 @@ class c_GridWindMover(WindMoversBase):
 
     time_offset = property(lambda self: self.mover.time_offset / 3600.,
                            lambda self, val: setattr(self.mover, 'time_offset',
-                                                     val * 3600.))
+                                                     round(val * 3600.)))
 
     def get_grid_data(self):
         return self.get_cells()
@@ -499,7 +502,7 @@ class c_GridWindMover(WindMoversBase):
         :param offset_time=0: Allow data to be in GMT with a time zone offset
                               (hours).
         """
-        self.mover.offset_time(time_offset * 3600.)
+        self.mover.offset_time(round(time_offset * 3600.))
 
 
 class IceWindMoverSchema(WindMoversBaseSchema):
@@ -572,7 +575,7 @@ class IceWindMover(WindMoversBase):
 
         self.mover.text_read(filename, topology_file)
         self.mover.extrapolate_in_time(extrapolate)
-        self.mover.offset_time(time_offset * 3600.)
+        self.mover.offset_time(round(time_offset * 3600.))
 
         super(IceWindMover, self).__init__(**kwargs)
 
@@ -676,7 +679,7 @@ class IceWindMover(WindMoversBase):
         :param offset_time=0: allow data to be in GMT with a time zone offset
                               (hours).
         """
-        self.mover.offset_time(time_offset * 3600.)
+        self.mover.offset_time(round(time_offset * 3600.))
 
     def get_offset_time(self):
         """
-- 
2.43.0


From 70efa9e01026d276f46369fa12885b43c7d0ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:09 +0000
Subject: [PATCH 092/146] fix: a CurrentMover with a steady uniform current
 could not be serialised

---
 py_gnome/gnome/movers/py_current_movers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index c7fd808..0ebb9ba 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -14,7 +14,7 @@ from gnome.utilities.projections import FlatEarthProjection
 from gnome.utilities.time_utils import TZOffset
 
 
-from gnome.environment import GridCurrent
+from gnome.environment import GridCurrent, SteadyUniformCurrent
 from gnome.environment.gridded_objects_base import Grid_U, VectorVariableSchema
 
 from gnome.movers.movers import TimeRangeSchema, PyMoverSchema
@@ -30,7 +30,8 @@ class CurrentMoverSchema(PyMoverSchema):
     current = GeneralGnomeObjectSchema(save=True, update=True,
                                        save_reference=True,
                                        acceptable_schemas=[VectorVariableSchema,
-                                                           GridCurrent._schema]
+                                                           GridCurrent._schema,
+                                                           SteadyUniformCurrent._schema]
                                        )
     uncertain_along = SchemaNode(
         Float(), missing=drop, save=True, update=True
-- 
2.43.0


From 8e6292f71f0c02ecc2c22a6e173ababa66fcf605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:43 +0000
Subject: [PATCH 093/146] fix: OilBudgetOutput could not be loaded and lost its
 file name

---
 py_gnome/gnome/outputters/oil_budget.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/oil_budget.py b/py_gnome/gnome/outputters/oil_budget.py
index 12bf778..482eea8 100644
--- a/py_gnome/gnome/outputters/oil_budget.py
+++ b/py_gnome/gnome/outputters/oil_budget.py
@@ -10,10 +10,13 @@ import csv
 from .weathering import BaseMassBalanceOutputter
 from .outputter import OutputterFilenameMixin
 from . import BaseOutputterSchema
-from gnome.persist import Boolean, SchemaNode
+from gnome.persist import Boolean, SchemaNode, String
+from gnome.persist.extend_colander import FilenameSchema
 
 
 class OilBudgetOutputSchema(BaseOutputterSchema):
+    filename = FilenameSchema()
+    file_format = SchemaNode(String())
     # these fields are saved in the base class so need to override
     #pass
     output_zero_step = SchemaNode(
@@ -85,6 +88,16 @@ class OilBudgetOutput(BaseMassBalanceOutputter, OutputterFilenameMixin):
                                               *args,
                                               **kwargs)
 
+    @classmethod
+    def new_from_dict(cls, dict_):
+        # fixed for this outputter, so __init__ does not take them
+        for key in ('output_zero_step', 'output_last_step',
+                    'output_single_step', 'output_start_time',
+                    'surface_conc'):
+            dict_.pop(key, None)
+
+        return super(OilBudgetOutput, cls).new_from_dict(dict_)
+
     def prepare_for_model_run(self,
                               model_start_time,
                               spills,
-- 
2.43.0


From e0814a03bb24706eb1b12c27cc370ed1e4b634a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:53 +0000
Subject: [PATCH 094/146] fix: updating a wind changed the caller's document
 and never reported a change

---
 py_gnome/gnome/environment/wind.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 7ec9952..9d4a39f 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -299,12 +299,18 @@ class Wind(Timeseries, Environment):
 
 
     def update_from_dict(self, dict_, refs=None):
+        dict_ = dict(dict_)  # the document is the caller's
+        updated = False
         if 'units' in dict_:
             # enforce updating of units before timeseries
-            self.units = dict_.pop('units')
+            units = dict_.pop('units')
+            updated = self._attr_changed(self.units, units)
+            self.units = units
         if 'timeseries' in dict_:
-            self.timeseries = WindTimeSeriesSchema().deserialize(dict_.pop('timeseries'))
-        super(Wind, self).update_from_dict(dict_, refs=refs)
+            ts = WindTimeSeriesSchema().deserialize(dict_.pop('timeseries'))
+            updated = self._attr_changed(self.timeseries, ts) or updated
+            self.timeseries = ts
+        return super(Wind, self).update_from_dict(dict_, refs=refs) or updated
 
     def _check_units(self, units):
         '''
-- 
2.43.0


From b0327c3d31091ad39a56bacabc6593f2a5823c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:54 +0000
Subject: [PATCH 095/146] fix: GridRelease failed or was empty on narrow bounds

---
 py_gnome/gnome/spills/release.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 4f60621..228270a 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -1153,8 +1153,8 @@ class GridRelease(Release):
         width *= np.cos(math.radians(center[1]))
 
         ry = math.sqrt(height / width) * avg_res
-        rx = round(avg_res**2 / ry)
-        ry = round(avg_res**2 / rx)
+        rx = max(1, round(avg_res**2 / ry))
+        ry = max(1, round(avg_res**2 / rx))
 
         return (rx, ry)
 
-- 
2.43.0


From db44f3badf57c9a7e252c922ba23384fd80bbce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:33 +0000
Subject: [PATCH 096/146] fix: of two data files with the same name only the
 first was saved

---
 py_gnome/gnome/persist/base_schema.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index 7db3146..44f720d 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -394,8 +394,14 @@ class ObjType(SchemaType):
         d_fname = os.path.split(raw_path)[1]
         # add datafile to zip archive
 
-        if d_fname not in zipfile_.namelist():
-            zipfile_.write(raw_path, d_fname)
+        if d_fname in zipfile_.namelist():
+            with open(raw_path, 'rb') as fp:
+                if fp.read() == zipfile_.read(d_fname):
+                    return d_fname
+            # a different file of the same name
+            d_fname = gen_unique_filename(d_fname, zipfile_)
+
+        zipfile_.write(raw_path, d_fname)
 
         return d_fname
 
-- 
2.43.0


From 26653098ef3a788a6a31e48063f8ddf24713cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:09 +0000
Subject: [PATCH 097/146] fix: names given to tides, gridded movers and NetCDF
 output were overwritten

---
 py_gnome/gnome/environment/tide.py        | 2 +-
 py_gnome/gnome/movers/c_current_movers.py | 4 ++--
 py_gnome/gnome/movers/c_wind_movers.py    | 2 +-
 py_gnome/gnome/outputters/netcdf.py       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/environment/tide.py b/py_gnome/gnome/environment/tide.py
index a3d2db7..427e070 100644
--- a/py_gnome/gnome/environment/tide.py
+++ b/py_gnome/gnome/environment/tide.py
@@ -96,7 +96,7 @@ class Tide(Environment):
         self.cy_obj = self._obj_to_create(filename)
         # self.yeardata = os.path.abspath( yeardata ) # set yeardata
         self.yeardata = yeardata  # set yeardata
-        self.name = os.path.split(self.filename)[1]
+        self.name = kwargs.get('name') or os.path.split(self.filename)[1]
         self.scale_factor = scale_factor if scale_factor else self.cy_obj.scale_factor
 
 
diff --git a/py_gnome/gnome/movers/c_current_movers.py b/py_gnome/gnome/movers/c_current_movers.py
index bff05dd..21ae5e4 100644
--- a/py_gnome/gnome/movers/c_current_movers.py
+++ b/py_gnome/gnome/movers/c_current_movers.py
@@ -523,7 +523,7 @@ class c_GridCurrentMover(CurrentMoversBase):
 
         # check if this is stored with cy_gridcurrent_mover?
         self.filename = filename
-        self.name = os.path.split(filename)[1]
+        self.name = kwargs.get('name') or os.path.split(filename)[1]
 
         # check if this is stored with cy_gridcurrent_mover?
         self.topology_file = topology_file
@@ -789,7 +789,7 @@ class IceMover(CurrentMoversBase):
 
         # check if this is stored with cy_ice_mover?
         self.filename = filename
-        self.name = os.path.split(filename)[1]
+        self.name = kwargs.get('name') or os.path.split(filename)[1]
 
         # check if this is stored with cy_ice_mover?
         self.topology_file = topology_file
diff --git a/py_gnome/gnome/movers/c_wind_movers.py b/py_gnome/gnome/movers/c_wind_movers.py
index 637dbef..689b46f 100644
--- a/py_gnome/gnome/movers/c_wind_movers.py
+++ b/py_gnome/gnome/movers/c_wind_movers.py
@@ -383,7 +383,7 @@ class c_GridWindMover(WindMoversBase):
         super(c_GridWindMover, self).__init__(**kwargs)
 
         # is wind_file and topology_file is stored with cy_gridwind_mover?
-        self.name = os.path.split(filename)[1]
+        self.name = kwargs.get('name') or os.path.split(filename)[1]
         self.filename = filename
         self.topology_file = topology_file
 
diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 52867b6..56c290b 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -352,7 +352,7 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
         self.zip_filename = '{0}.{1}'.format(name, 'zip')
 
         # fixme: move to base class?
-        self.name = os.path.split(filename)[1]
+        self.name = kwargs.get('name') or os.path.split(filename)[1]
 
         self.zip_output = zip_output
         if self.zip_output is True:
-- 
2.43.0


From 97891889d82b1af9d1f6e08e286067c28b71ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:02 +0000
Subject: [PATCH 098/146] fix: reading lines of a text ran past its end and
 past the buffer

---
 py_gnome/lib_gnome/MemUtils.cpp        |  8 ++++++++
 py_gnome/lib_gnome/StringFunctions.cpp | 13 +++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/py_gnome/lib_gnome/MemUtils.cpp b/py_gnome/lib_gnome/MemUtils.cpp
index 2e4b383..a6eba3a 100644
--- a/py_gnome/lib_gnome/MemUtils.cpp
+++ b/py_gnome/lib_gnome/MemUtils.cpp
@@ -81,6 +81,11 @@ Ptr _NewPtr(long size)
 	memoryError = 0;
 	Ptr p;
 
+	if (size < 0) {
+		memoryError = -1;
+		return 0;
+	}
+
 	try {
 		p = new char[size + sizeof(long)]();
 	}
@@ -306,6 +311,9 @@ void _SetHandleSize(Handle h, long newSize)
 
 long _GetHandleSize(Handle h)
 {
+	if (!h)
+		return 0;
+
 	return _GetPtrSize(*h);
 }
 
diff --git a/py_gnome/lib_gnome/StringFunctions.cpp b/py_gnome/lib_gnome/StringFunctions.cpp
index 23ecf3c..c830992 100644
--- a/py_gnome/lib_gnome/StringFunctions.cpp
+++ b/py_gnome/lib_gnome/StringFunctions.cpp
@@ -1166,17 +1166,19 @@ CHARPTR NthLineInTextHelper(CHARPTR text, long n, CHARPTR line, Boolean optimize
 				if (numCharCopied < maxLen) {
 					q[0] = s[0]; 
 					numCharCopied++;
+					q++;
 				}
 
-				q++; 
 				s++; 
 			}
 
 			if (s[0] == RETURN && s[1] == LINEFEED)
 				lineFeed = true;
 
-			*q = 0;	// this copies to the variable
-			line[maxLen - 1] = 0; // always set the last char to 0
+			if (numCharCopied < maxLen)
+				*q = 0;	// this copies to the variable
+			if (maxLen > 0)
+				line[maxLen - 1] = 0; // always set the last char to 0
 			break;
 		}
 
@@ -1189,7 +1191,10 @@ CHARPTR NthLineInTextHelper(CHARPTR text, long n, CHARPTR line, Boolean optimize
 	}
 
 	if (optimize) {
-		t += i + strlen(line) + 1 + (lineFeed ? 1 : 0);
+		// to the start of the next line, but never beyond the end of the text
+		t += i + lineLengthInFile;
+		if (t[0])
+			t += lineFeed ? 2 : 1;
 		linesRead++;
 	}
 
-- 
2.43.0


From 902fef5a179f454e5d5108ae432db4e8637c9998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:03 +0000
Subject: [PATCH 099/146] fix: division by zero for grids of one row or column

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp  | 8 ++++----
 py_gnome/lib_gnome/TimeGridWind_c.cpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 5e95a0c..f514ffa 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -2272,8 +2272,8 @@ LongPointHdl TimeGridVelRect_c::GetPointsHdl()
 	if (fPtsH) return fPtsH;
 	
 	numPoints = fNumRows*fNumCols;
-	dLong = (gridBounds.hiLong - gridBounds.loLong) / (fNumCols-1);
-	dLat = (gridBounds.hiLat - gridBounds.loLat) / (fNumRows-1);
+	dLong = fNumCols > 1 ? (gridBounds.hiLong - gridBounds.loLong) / (fNumCols-1) : 0;
+	dLat = fNumRows > 1 ? (gridBounds.hiLat - gridBounds.loLat) / (fNumRows-1) : 0;
 	fPtsH = (LongPointHdl)_NewHandle(numPoints * sizeof(LongPoint));
 	if (!fPtsH) {
 		err = -1;
@@ -12290,8 +12290,8 @@ LongPointHdl TimeGridCurRect_c::GetPointsHdl()
 	if (fPtsH) return fPtsH;
 	
 	numPoints = fNumRows*fNumCols;
-	dLong = (gridBounds.hiLong - gridBounds.loLong) / (fNumCols-1);
-	dLat = (gridBounds.hiLat - gridBounds.loLat) / (fNumRows-1);
+	dLong = fNumCols > 1 ? (gridBounds.hiLong - gridBounds.loLong) / (fNumCols-1) : 0;
+	dLat = fNumRows > 1 ? (gridBounds.hiLat - gridBounds.loLat) / (fNumRows-1) : 0;
 	fPtsH = (LongPointHdl)_NewHandle(numPoints * sizeof(LongPoint));
 	if (!fPtsH) {
 		err = -1;
diff --git a/py_gnome/lib_gnome/TimeGridWind_c.cpp b/py_gnome/lib_gnome/TimeGridWind_c.cpp
index d967d7c..fd57acd 100644
--- a/py_gnome/lib_gnome/TimeGridWind_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridWind_c.cpp
@@ -86,8 +86,8 @@ LongPointHdl TimeGridWindRect_c::GetPointsHdl()
 	if (fPtsH) return fPtsH;
 	
 	numPoints = fNumRows*fNumCols;
-	dLong = (gridBounds.hiLong - gridBounds.loLong) / (fNumCols-1);
-	dLat = (gridBounds.hiLat - gridBounds.loLat) / (fNumRows-1);
+	dLong = fNumCols > 1 ? (gridBounds.hiLong - gridBounds.loLong) / (fNumCols-1) : 0;
+	dLat = fNumRows > 1 ? (gridBounds.hiLat - gridBounds.loLat) / (fNumRows-1) : 0;
 	fPtsH = (LongPointHdl)_NewHandle(numPoints * sizeof(LongPoint));
 	if (!fPtsH) {
 		err = -1;
-- 
2.43.0


From 0b27795f2363a90ff413397b9946dd1f7b9deddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:03 +0000
Subject: [PATCH 100/146] fix: GRIDCUR header without data was read past its
 end

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index f514ffa..379be2e 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -11999,6 +11999,10 @@ OSErr TimeGridCurRect_c::ReadHeaderLines(vector<string> &linesInFile,
 	while (currentLine.size() == 0 ||
 		   currentLine.substr(0, 2) == "[U")
 	{
+		if (line >= (long)linesInFile.size()) {
+			err = -2;	// the file ends before the data starts
+			goto done;
+		}
 		currentLine = trim(linesInFile[line++]);
 	}
 
-- 
2.43.0


From cadb686b81ba9546b301ed40af2bd8fc4ee16629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:28 +0000
Subject: [PATCH 101/146] fix: meshes whose indexes lie outside them were used

---
 py_gnome/lib_gnome/CATSMover_c.cpp    |  6 +++
 py_gnome/lib_gnome/DagTreeIO.cpp      | 55 +++++++++++++++++++++++++++
 py_gnome/lib_gnome/DagTreeIO.h        |  1 +
 py_gnome/lib_gnome/TimeGridVel_c.cpp  | 18 +++++++++
 py_gnome/lib_gnome/TimeGridWind_c.cpp |  6 +++
 5 files changed, 86 insertions(+)

diff --git a/py_gnome/lib_gnome/CATSMover_c.cpp b/py_gnome/lib_gnome/CATSMover_c.cpp
index b347753..c9888cd 100644
--- a/py_gnome/lib_gnome/CATSMover_c.cpp
+++ b/py_gnome/lib_gnome/CATSMover_c.cpp
@@ -624,6 +624,12 @@ OSErr CATSMover_c::TextRead(vector<string> &linesInFile)
 			goto done;
 	}
 
+	if (!MeshIndexesAreValid(pts, topo, tree.treeHdl)) {
+		err = -1;
+		strcpy(errmsg, "Error in the topology or the dag tree: index out of range");
+		goto done;
+	}
+
 	MySpinCursor(); // JLM 8/4/99
 
 	triGrid = new TTriGridVel;
diff --git a/py_gnome/lib_gnome/DagTreeIO.cpp b/py_gnome/lib_gnome/DagTreeIO.cpp
index 6a947d8..9a0b43a 100644
--- a/py_gnome/lib_gnome/DagTreeIO.cpp
+++ b/py_gnome/lib_gnome/DagTreeIO.cpp
@@ -151,6 +151,11 @@ OSErr ReadTVerticesBody(vector<string> &linesInFile, long *line,
 	// Skip next line. It just contains number of records
 	(*line)++;
 
+	if (numPoints <= 0) {
+		strcpy(errmsg, "numPoints cannot be <= 0 in ReadTVerticesBody");
+		return -1;
+	}
+
 	ptsH = (LongPointHdl)_NewHandle(sizeof(LongPoint) * (numPoints));
 	if (ptsH == 0) {
 		strcpy(errmsg, "Not enough memory to read dagtree file.");
@@ -407,6 +412,47 @@ OSErr ReadTTopology(CHARH fileBufH, long *line,
 
 
 
+//////////////////////////////////////////////////////////////////////
+// Do the triangles and the search tree of a file only refer to points,
+// triangles and branches that there are?
+//////////////////////////////////////////////////////////////////////
+bool MeshIndexesAreValid(LongPointHdl ptsH, TopologyHdl topH, DAGHdl treeH)
+{
+	long numPts = _GetHandleSize((Handle)ptsH) / sizeof(LongPoint);
+	long numTri = _GetHandleSize((Handle)topH) / sizeof(Topology);
+	long numBranches = _GetHandleSize((Handle)treeH) / sizeof(DAG);
+	long **longH = (long **)topH;
+
+	if (numPts <= 0 || numTri <= 0 || numBranches <= 0)
+		return false;
+
+	for (long i = 0; i < numTri; i++) {
+		for (long j = 0; j < 3; j++) {
+			long vertex = (*longH)[i * 6 + j];
+			long adjacent = (*longH)[i * 6 + 3 + j];
+
+			if (vertex < 0 || vertex >= numPts || adjacent < -1 || adjacent >= numTri)
+				return false;
+		}
+	}
+
+	for (long i = 0; i < numBranches; i++) {
+		DAG branch = (*treeH)[i];
+
+		if (branch.branchLeft == -1 || branch.branchRight == -1)
+			continue;	// the search ends here
+		if (branch.topoIndex < 0 || branch.topoIndex >= 6 * numTri || branch.topoIndex % 6 > 2)
+			return false;
+		if (branch.branchLeft >= numBranches || (branch.branchLeft < 0 && branch.branchLeft != -8))
+			return false;
+		if (branch.branchRight >= numBranches || (branch.branchRight < 0 && branch.branchRight != -8))
+			return false;
+	}
+
+	return true;
+}
+
+
 //////////////////////////////////////////////////////////////////////
 // Find the third point of the triangle to the right of the segment
 //////////////////////////////////////////////////////////////////////
@@ -529,11 +575,14 @@ long WhatTriIsPtIn(DAGHdl treeH,TopologyHdl topH, LongPointHdl ptsH,LongPoint pt
 	long dagIndex;					//  The current topology index referred to in the dag tree.
 
 	long** longH = (long**)(topH);  
+	long stepsLeft = _GetHandleSize((Handle)treeH)/sizeof(DAG);
 
 	i=0;
 	//while ((*treeH)[i].branchLeft >= 0)
 	while ((*treeH)[i].branchLeft != -1 && (*treeH)[i].branchRight != -1)
 	{
+		if (stepsLeft-- <= 0)
+			return -1;	// a tree that leads back to itself
 		dagIndex = ((*treeH)[i].topoIndex);
 		triNum = dagIndex/6;
 		triNumIndex = (triNum)*6;
@@ -793,6 +842,12 @@ OSErr ReadWaterBoundaries(vector<string> &linesInFile, long *line,
 			goto done;
 		}
 
+		if (waterBoundaryIndex < 0 || waterBoundaryIndex >= numBoundaryPts) {
+			err = -1;
+			TechError("ReadWaterBoundaries()", "waterBoundaryIndex out of range", 0);
+			goto done;
+		}
+
 		(*boundaryTypeH)[waterBoundaryIndex] = 2;
 	}
 	*waterBoundaries = boundaryTypeH;
diff --git a/py_gnome/lib_gnome/DagTreeIO.h b/py_gnome/lib_gnome/DagTreeIO.h
index 5d5b2a6..f971af8 100644
--- a/py_gnome/lib_gnome/DagTreeIO.h
+++ b/py_gnome/lib_gnome/DagTreeIO.h
@@ -46,6 +46,7 @@ OSErr ReadTVerticesBody(CHARH fileBufH,long *line,
 						LongPointHdl *pointsH, FLOATH *depthsH, char *errmsg,
 						long numPoints,Boolean wantDepths);
 
+bool MeshIndexesAreValid(LongPointHdl ptsH, TopologyHdl topH, DAGHdl treeH);
 long FindTriThirdPoint(long **longH,long p1, long p2, long index);
 int	Right_or_Left_of_Segment(LongPointHdl ptsH,long ref_p1,long ref_p2, LongPoint test_p1);
 long WhatTriIsPtIn(DAGHdl treeH,TopologyHdl topH, LongPointHdl ptsH,LongPoint pt);
diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 379be2e..3f15508 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -6536,6 +6536,12 @@ OSErr TimeGridVelCurv_c::ReadTopology(vector<string> &linesInFile)
 		err = ReadTIndexedDagTreeBody(linesInFile, &line, &tree, errmsg, numPoints);
 		if (err)
 			goto done;
+
+		if (!MeshIndexesAreValid(pts, topo, tree.treeHdl)) {
+			err = -1;
+			strcpy(errmsg, "Error in the topology or the dag tree: index out of range");
+			goto done;
+		}
 	}
 	else {
 		err = -1; // for now we require TIndexedDagTree
@@ -10610,6 +10616,12 @@ OSErr TimeGridVelTri_c::ReadTopology(vector<string> &linesInFile)
 		err = ReadTIndexedDagTreeBody(linesInFile, &line, &tree, errmsg, numPoints);
 		if (err)
 			goto done;
+
+		if (!MeshIndexesAreValid(pts, topo, tree.treeHdl)) {
+			err = -1;
+			strcpy(errmsg, "Error in the topology or the dag tree: index out of range");
+			goto done;
+		}
 	}
 	else {
 		err = -1; // for now we require TIndexedDagTree
@@ -13481,6 +13493,12 @@ OSErr TimeGridCurTri_c::TextRead(vector<string> &linesInFile,
 		err = ReadTIndexedDagTreeBody(linesInFile, &line, &tree, errmsg, numPoints);
 		if (err)
 			goto done;
+
+		if (!MeshIndexesAreValid(pts, topo, tree.treeHdl)) {
+			err = -1;
+			strcpy(errmsg, "Error in the topology or the dag tree: index out of range");
+			goto done;
+		}
 	}
 	else {
 		DisplayMessage("Making Dag Tree\n");
diff --git a/py_gnome/lib_gnome/TimeGridWind_c.cpp b/py_gnome/lib_gnome/TimeGridWind_c.cpp
index fd57acd..f0e8af6 100644
--- a/py_gnome/lib_gnome/TimeGridWind_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridWind_c.cpp
@@ -2595,6 +2595,12 @@ OSErr TimeGridWindCurv_c::ReadTopology(vector<string> &linesInFile)
 									  errmsg, numPoints);
 		if (err)
 			goto done;
+
+		if (!MeshIndexesAreValid(pts, topo, tree.treeHdl)) {
+			err = -1;
+			strcpy(errmsg, "Error in the topology or the dag tree: index out of range");
+			goto done;
+		}
 	}
 	else {
 		err = -1; // for now we require TIndexedDagTree
-- 
2.43.0


From 1d8fc8a168eae93a7205437a7ca372cb447594dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 102/146] fix: lines beyond the end of a file were read

---
 py_gnome/lib_gnome/CATSMover_c.cpp     |  4 +-
 py_gnome/lib_gnome/DagTreeIO.cpp       | 22 ++++----
 py_gnome/lib_gnome/OSSMTimeValue_c.cpp |  6 +-
 py_gnome/lib_gnome/Replacements.cpp    | 12 ++--
 py_gnome/lib_gnome/StringFunctions.cpp | 15 +++++
 py_gnome/lib_gnome/StringFunctions.h   |  3 +
 py_gnome/lib_gnome/TimeGridVel_c.cpp   | 78 +++++++++++++-------------
 py_gnome/lib_gnome/TimeGridWind_c.cpp  | 12 ++--
 py_gnome/lib_gnome/TimeValuesIO.cpp    | 26 ++++-----
 9 files changed, 98 insertions(+), 80 deletions(-)

diff --git a/py_gnome/lib_gnome/CATSMover_c.cpp b/py_gnome/lib_gnome/CATSMover_c.cpp
index c9888cd..ac0fd92 100644
--- a/py_gnome/lib_gnome/CATSMover_c.cpp
+++ b/py_gnome/lib_gnome/CATSMover_c.cpp
@@ -588,7 +588,7 @@ OSErr CATSMover_c::TextRead(vector<string> &linesInFile)
 
 	MySpinCursor();
 
-	currentLine = linesInFile[(line)++];
+	currentLine = LineInFile(linesInFile, line++);
 
 	if (IsTTopologyHeaderLine(currentLine, numTopoPoints)) {
 		// Topology from CATs
@@ -598,7 +598,7 @@ OSErr CATSMover_c::TextRead(vector<string> &linesInFile)
 		if (err)
 			goto done;
 
-		currentLine = linesInFile[(line)++];
+		currentLine = LineInFile(linesInFile, line++);
 	}
 	else {
 		err = -1; // for now we require TTopology
diff --git a/py_gnome/lib_gnome/DagTreeIO.cpp b/py_gnome/lib_gnome/DagTreeIO.cpp
index 9a0b43a..ed4874e 100644
--- a/py_gnome/lib_gnome/DagTreeIO.cpp
+++ b/py_gnome/lib_gnome/DagTreeIO.cpp
@@ -52,7 +52,7 @@ OSErr ReadTIndexedDagTreeBody(vector<string> &linesInFile, long *line,
 		goto done;
 
 	for (i = 0; i < numRecs; i++) {
-		if (!ParseLine(linesInFile[(*line)++], (*dagListHdl)[i])) {
+		if (!ParseLine(LineInFile(linesInFile, (*line)++), (*dagListHdl)[i])) {
 			snprintf(errmsg, sizeof(errmsg), "Unable to read DAG Tree data from line %ld:%s", *line, NEWLINESTRING);
 			goto done;
 		}
@@ -162,7 +162,7 @@ OSErr ReadTVerticesBody(vector<string> &linesInFile, long *line,
 		return -1;
 	}
 
-	currentLine = linesInFile[(*line)++];
+	currentLine = LineInFile(linesInFile, (*line)++);
 	if (!ParseLine(currentLine, x, y, z))
 	{
 		wantDepths = false;	// in case any current files don't have depth data, it's usually not used
@@ -185,7 +185,7 @@ OSErr ReadTVerticesBody(vector<string> &linesInFile, long *line,
 	}
 
 	for (long i = 1; i < numPoints; i++) {
-		currentLine = linesInFile[(*line)++];
+		currentLine = LineInFile(linesInFile, (*line)++);
 
 		if (wantDepths) {
 			if (!ParseLine(currentLine, x, y, z))
@@ -260,7 +260,7 @@ OSErr ReadTVertices(vector<string> &linesInFile, long *line,
 	*depthsH = 0;
 
 	// Read in the vertices header "Vertices numRecs"
-	if (!IsTVerticesHeaderLine(linesInFile[(*line)++], numPoints))
+	if (!IsTVerticesHeaderLine(LineInFile(linesInFile, (*line)++), numPoints))
 		return -1;
 
 	err = ReadTVerticesBody(linesInFile, line, pointsH, depthsH, errmsg, numPoints, wantDepths);
@@ -331,12 +331,12 @@ OSErr ReadTTopologyBody(vector<string> &linesInFile, long *line,
 	
 	for (long i = 0; i < numRecs; i++) {
 		if (wantVelData) {
-			if (!ParseLine(linesInFile[(*line)++], (*topoH)[i], (*velH)[i])) {
+			if (!ParseLine(LineInFile(linesInFile, (*line)++), (*topoH)[i], (*velH)[i])) {
 				badScan = true;
 			}
 		}
 		else {
-			if (!ParseLine(linesInFile[(*line)++], (*topoH)[i])) {
+			if (!ParseLine(LineInFile(linesInFile, (*line)++), (*topoH)[i])) {
 				badScan = true;
 			}
 		}
@@ -392,7 +392,7 @@ OSErr ReadTTopology(vector<string> &linesInFile, long *line,
 	errmsg[0] = 0;
 
 	// Read in the topology header "Topology numRecs"
-	currentLine = linesInFile[(*line)++];
+	currentLine = LineInFile(linesInFile, (*line)++);
 	if (!IsTTopologyHeaderLine(currentLine, numRecs))
 		return -1;
 
@@ -836,7 +836,7 @@ OSErr ReadWaterBoundaries(vector<string> &linesInFile, long *line,
 	*waterBoundaries = 0;
 
 	for (long i = 0; i < numWaterBoundaries; i++) {
-		if (!ParseLine(linesInFile[(*line)++], waterBoundaryIndex)) {
+		if (!ParseLine(LineInFile(linesInFile, (*line)++), waterBoundaryIndex)) {
 			err = -1;
 			TechError("ReadWaterBoundaries()", "failed to read waterBoundaryIndex", 0);
 			goto done;
@@ -904,7 +904,7 @@ OSErr ReadBoundarySegs(vector<string> &linesInFile, long *line,
 	for (long i = 0; i < numSegs; i++) {
 		long boundarySeg;
 
-		if (!ParseLine(linesInFile[(*line)++], boundarySeg)) {
+		if (!ParseLine(LineInFile(linesInFile, (*line)++), boundarySeg)) {
 			err = -1;
 			TechError("ReadBoundarySegs()", "failed to read boundarySeg", 0);
 			goto done;
@@ -967,7 +967,7 @@ OSErr ReadBoundaryPts(vector<string> &linesInFile, long *line,
 	*boundaryPts = 0;
 
 	for (long i = 0; i < numPts; i++) {
-		if (!ParseLine(linesInFile[(*line)++], boundaryPt)) {
+		if (!ParseLine(LineInFile(linesInFile, (*line)++), boundaryPt)) {
 			err = -1;
 			TechError("ReadBoundaryPts()", "sscanf() == 1", 0);
 			goto done;
@@ -1037,7 +1037,7 @@ OSErr ReadTransposeArray(vector<string> &linesInFile, long *line,
  	}
 
 	for (long i = 0; i < numPts; i++) {
-		if (!ParseLine(linesInFile[(*line)++], index)) {
+		if (!ParseLine(LineInFile(linesInFile, (*line)++), index)) {
 			err = -1;
 			TechError("ReadTransposeArray()", "sscanf() == 1", 0);
 			goto done;
diff --git a/py_gnome/lib_gnome/OSSMTimeValue_c.cpp b/py_gnome/lib_gnome/OSSMTimeValue_c.cpp
index 19721ac..39ab30a 100644
--- a/py_gnome/lib_gnome/OSSMTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/OSSMTimeValue_c.cpp
@@ -1236,12 +1236,12 @@ OSErr OSSMTimeValue_c::ReadHydrologyHeader(vector<string> &linesInFile)
 	memset(firstPartOfFile, 0, 512);
 	memset(errmsg, 0, 256);
 
-	currentLine = trim(linesInFile[line++]);
+	currentLine = trim(LineInFile(linesInFile, line++));
 
 	stationName = strdup(currentLine.c_str());
 	strncpy(fStationName,stationName,kMaxNameLen);
 
-	currentLine = trim(linesInFile[(line)++]);
+	currentLine = trim(LineInFile(linesInFile, line++));
 
 	std::replace(currentLine.begin(), currentLine.end(), ',', ' ');
 
@@ -1272,7 +1272,7 @@ OSErr OSSMTimeValue_c::ReadHydrologyHeader(vector<string> &linesInFile)
 
 	fStationPosition = wp;
 
-    currentLine = trim(linesInFile[line++]);
+    currentLine = trim(LineInFile(linesInFile, line++));
     std::transform(currentLine.begin(),
                    currentLine.end(),
                    currentLine.begin(),
diff --git a/py_gnome/lib_gnome/Replacements.cpp b/py_gnome/lib_gnome/Replacements.cpp
index e3f8981..8becd97 100644
--- a/py_gnome/lib_gnome/Replacements.cpp
+++ b/py_gnome/lib_gnome/Replacements.cpp
@@ -358,7 +358,7 @@ bool IsGridCurTimeFile (vector<string> &linesInFile, short *selectedUnitsOut)
 
 	// First line, must start with '[GRIDCURTIME] <units>'
 	// <units> == the designation of units for the file.
-	currentLine = trim(linesInFile[lineIdx++]);
+	currentLine = trim(LineInFile(linesInFile, lineIdx++));
 
 	istringstream lineStream(currentLine);
 
@@ -401,7 +401,7 @@ bool IsGridWindFile (vector<string> &linesInFile, short *selectedUnitsOut)
 
 	// First line, must start with '[GRIDCURTIME] <units>'
 	// <units> == the designation of units for the file.
-	currentLine = trim(linesInFile[lineIdx++]);
+	currentLine = trim(LineInFile(linesInFile, lineIdx++));
 
 	istringstream lineStream(currentLine);
 
@@ -440,7 +440,7 @@ bool IsPtCurFile(vector<string> &linesInFile)
 	string key;
 
 	// First line, must start with [FILETYPE] PTCUR
-	if (ParseKeyedLine(linesInFile[0], "[FILETYPE]", key) && key == "PTCUR")
+	if (ParseKeyedLine(LineInFile(linesInFile, 0), "[FILETYPE]", key) && key == "PTCUR")
 		return true;
 	else
 		return false;
@@ -462,7 +462,7 @@ bool IsCATS3DFile(vector<string> &linesInFile)
 	string key;
 
 	// must start with CATS3D
-	if (ParseLine(linesInFile[0], key) && key == "CATS3D")
+	if (ParseLine(LineInFile(linesInFile, 0), key) && key == "CATS3D")
 		return true;
 	else
 		return false;
@@ -489,7 +489,7 @@ bool IsShioFile(vector<string> &linesInFile)
 	string value;
 	
 	// the first line of the file needs to be "[StationInfo]"
-	if (ParseKeyedLine(linesInFile[line++], "[StationInfo]", value))
+	if (ParseKeyedLine(LineInFile(linesInFile, line++), "[StationInfo]", value))
 		return true;
 	else
 		return false;
@@ -513,7 +513,7 @@ bool IsTriGridFile (vector<string> &linesInFile)
 	string value1S;
 
 	// First line, must start with 'DAG'
-	currentLine = trim(linesInFile[lineIdx++]);
+	currentLine = trim(LineInFile(linesInFile, lineIdx++));
 
 	istringstream lineStream(currentLine);
 
diff --git a/py_gnome/lib_gnome/StringFunctions.cpp b/py_gnome/lib_gnome/StringFunctions.cpp
index c830992..f791901 100644
--- a/py_gnome/lib_gnome/StringFunctions.cpp
+++ b/py_gnome/lib_gnome/StringFunctions.cpp
@@ -214,8 +214,23 @@ std::string &trim(std::string &s)
         return ltrim(rtrim(s));
 }
 
+std::string &LineInFile(std::vector<std::string> &lines, long index)
+{
+	static std::string noLine;
+
+	if (index < 0 || (size_t)index >= lines.size()) {
+		noLine.clear();
+		return noLine;
+	}
+
+	return lines[index];
+}
+
 std::vector<std::string> &rtrim_empty_lines(std::vector<std::string> &lines)
 {
+	if (lines.empty())
+		return lines;
+
 	std::vector<std::string>::iterator i = lines.end() - 1;
 
 	while(i != lines.begin()) {
diff --git a/py_gnome/lib_gnome/StringFunctions.h b/py_gnome/lib_gnome/StringFunctions.h
index b4e2eba..2b1d88e 100644
--- a/py_gnome/lib_gnome/StringFunctions.h
+++ b/py_gnome/lib_gnome/StringFunctions.h
@@ -34,6 +34,9 @@ std::string &ltrim(std::string &s);
 std::string &rtrim(std::string &s);
 std::string &trim(std::string &s);
 std::vector<std::string> &rtrim_empty_lines(std::vector<std::string> &lines);
+
+// a line of a file, an empty one beyond the end of the file
+std::string &LineInFile(std::vector<std::string> &lines, long index);
 std::vector<std::string> &split(const std::string &strIn, const std::string &delims,
 								std::vector<std::string> &elems);
 std::vector<std::string> split(const std::string &s, const std::string &delims);
diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 3f15508..84e59ce 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -6428,7 +6428,7 @@ OSErr TimeGridVelCurv_c::ReadTopology(vector<string> &linesInFile)
 	// start with transformation array and vertices
 	MySpinCursor(); // JLM 8/4/99
 
-	currentLine = linesInFile[line++];
+	currentLine = LineInFile(linesInFile, line++);
 	if (IsTransposeArrayHeaderLine(currentLine, numPts)) {
 		err = ReadTransposeArray(linesInFile, &line, &fVerdatToNetCDFH, numPts, errmsg);
 		if (err) {
@@ -6465,7 +6465,7 @@ OSErr TimeGridVelCurv_c::ReadTopology(vector<string> &linesInFile)
 
 	MySpinCursor();
 
-	currentLine = linesInFile[line++];
+	currentLine = LineInFile(linesInFile, line++);
 
 	if (IsBoundarySegmentHeaderLine(currentLine, numBoundarySegs)) {
 		// Boundary data from CATs
@@ -6476,7 +6476,7 @@ OSErr TimeGridVelCurv_c::ReadTopology(vector<string> &linesInFile)
 		if (err)
 			goto done;
 
-		currentLine = linesInFile[line++];
+		currentLine = LineInFile(linesInFile, line++);
 	}
 
 	MySpinCursor(); // JLM 8/4/99
@@ -6491,7 +6491,7 @@ OSErr TimeGridVelCurv_c::ReadTopology(vector<string> &linesInFile)
 		if (err)
 			goto done;
 
-		currentLine = linesInFile[line++];
+		currentLine = LineInFile(linesInFile, line++);
 	}
 
 	MySpinCursor(); // JLM 8/4/99
@@ -6505,7 +6505,7 @@ OSErr TimeGridVelCurv_c::ReadTopology(vector<string> &linesInFile)
 		if (err)
 			goto done;
 
-		currentLine = linesInFile[line++];
+		currentLine = LineInFile(linesInFile, line++);
 	}
 
 	MySpinCursor(); // JLM 8/4/99
@@ -6519,7 +6519,7 @@ OSErr TimeGridVelCurv_c::ReadTopology(vector<string> &linesInFile)
 		if (err)
 			goto done;
 
-		currentLine = linesInFile[line++];
+		currentLine = LineInFile(linesInFile, line++);
 	}
 	else {
 		err = -1; // for now we require TTopology
@@ -10514,7 +10514,7 @@ OSErr TimeGridVelTri_c::ReadTopology(vector<string> &linesInFile)
 	// No header
 	// start with transformation array and vertices
 
-	currentLine = linesInFile[line++];
+	currentLine = LineInFile(linesInFile, line++);
 	if (IsTransposeArrayHeaderLine(currentLine, numPts)) {
 		err = ReadTransposeArray(linesInFile, &line, &fVerdatToNetCDFH, numPts, errmsg);
 		if (err) {
@@ -10549,7 +10549,7 @@ OSErr TimeGridVelTri_c::ReadTopology(vector<string> &linesInFile)
 
 	MySpinCursor();
 
-	currentLine = linesInFile[line++];
+	currentLine = LineInFile(linesInFile, line++);
 	if (IsBoundarySegmentHeaderLine(currentLine, numBoundarySegs)) {
 		// Boundary data from CATs
 		MySpinCursor();
@@ -10559,7 +10559,7 @@ OSErr TimeGridVelTri_c::ReadTopology(vector<string> &linesInFile)
 		if (err)
 			goto done;
 
-		currentLine = linesInFile[line++];
+		currentLine = LineInFile(linesInFile, line++);
 	}
 
 	MySpinCursor(); // JLM 8/4/99
@@ -10572,7 +10572,7 @@ OSErr TimeGridVelTri_c::ReadTopology(vector<string> &linesInFile)
 		if (err)
 			goto done;
 
-		currentLine = linesInFile[line++];
+		currentLine = LineInFile(linesInFile, line++);
 	}
 
 	MySpinCursor(); // JLM 8/4/99
@@ -10586,7 +10586,7 @@ OSErr TimeGridVelTri_c::ReadTopology(vector<string> &linesInFile)
 		if (err)
 			goto done;
 
-		currentLine = linesInFile[line++];
+		currentLine = LineInFile(linesInFile, line++);
 	}
 
 	MySpinCursor(); // JLM 8/4/99
@@ -10599,7 +10599,7 @@ OSErr TimeGridVelTri_c::ReadTopology(vector<string> &linesInFile)
 		if (err)
 			goto done;
 
-		currentLine = linesInFile[line++];
+		currentLine = LineInFile(linesInFile, line++);
 	}
 	else {
 		err = -1; // for now we require TTopology
@@ -11297,7 +11297,7 @@ OSErr TimeGridCurRect_c::ReadInputFileNames(vector<string> &linesInFile, long *l
 		DateTimeRec timeRec;
 
 		// first line should be a [FILE] line
-		if (!ParseKeyedLine(linesInFile[(*line)++], "[FILE]", file)) {
+		if (!ParseKeyedLine(LineInFile(linesInFile, (*line)++), "[FILE]", file)) {
 			err = -1;
 			TechError("TimeGridCurRect_c::ReadInputFileNames()", "failed to scan linked file", 0);
 			goto done;
@@ -11316,7 +11316,7 @@ OSErr TimeGridCurRect_c::ReadInputFileNames(vector<string> &linesInFile, long *l
 		}
 
 		// next line is a [STARTTIME] line
-		if (!ParseKeyedLine(linesInFile[(*line)++], "[STARTTIME]", timeRec)) {
+		if (!ParseKeyedLine(LineInFile(linesInFile, (*line)++), "[STARTTIME]", timeRec)) {
 			err = -1;
 			TechError("TimeGridCurRect_c::ReadInputFileNames()", "scan line is not a [STARTTIME]", 0);
 			goto done;
@@ -11335,7 +11335,7 @@ OSErr TimeGridCurRect_c::ReadInputFileNames(vector<string> &linesInFile, long *l
 		(*inputFilesHdl)[i].startTime = timeSeconds;
 
 		// next line is an [ENDTIME] line
-		if (!ParseKeyedLine(linesInFile[(*line)++], "[ENDTIME]", timeRec)) {
+		if (!ParseKeyedLine(LineInFile(linesInFile, (*line)++), "[ENDTIME]", timeRec)) {
 			err = -1;
 			TechError("TimeGridCurRect_c::ReadInputFileNames()", "scan line is not a [ENDTIME]", 0);
 			goto done;
@@ -11937,31 +11937,31 @@ OSErr TimeGridCurRect_c::ReadHeaderLines(vector<string> &linesInFile,
 
 	line++; // skip past the header line
 
-	if (!ParseKeyedLine(linesInFile[line++], "NUMROWS", fNumRows)) {
+	if (!ParseKeyedLine(LineInFile(linesInFile, line++), "NUMROWS", fNumRows)) {
 		//cerr << "TimeGridCurRect_c::ReadHeaderLines(): failed getting num rows..." << endl;
 		err = -2;
 		goto done;
 	}
 
-	if (!ParseKeyedLine(linesInFile[line++], "NUMCOLS", fNumCols)) {
+	if (!ParseKeyedLine(LineInFile(linesInFile, line++), "NUMCOLS", fNumCols)) {
 		err = -2;
 		goto done;
 	}
 
-	currentLine = linesInFile[line++];
+	currentLine = LineInFile(linesInFile, line++);
 	if (ParseKeyedLine(currentLine, "STARTLAT", oLat)) {
 		// lat/long given as corner point and increment
-		if (!ParseKeyedLine(linesInFile[line++], "STARTLONG", oLon)) {
+		if (!ParseKeyedLine(LineInFile(linesInFile, line++), "STARTLONG", oLon)) {
 			err = -2;
 			goto done;
 		}
 
-		if (!ParseKeyedLine(linesInFile[line++], "DLAT", dLat)) {
+		if (!ParseKeyedLine(LineInFile(linesInFile, line++), "DLAT", dLat)) {
 			err = -2;
 			goto done;
 		}
 
-		if (!ParseKeyedLine(linesInFile[line++], "DLONG", dLon)) {
+		if (!ParseKeyedLine(LineInFile(linesInFile, line++), "DLONG", dLon)) {
 			err = -2;
 			goto done;
 		}
@@ -11970,17 +11970,17 @@ OSErr TimeGridCurRect_c::ReadHeaderLines(vector<string> &linesInFile,
 	}
 	else if (ParseKeyedLine(currentLine, "LOLAT", lowLat)) {
 		// lat/long bounds given as lo/hi
-		if (!ParseKeyedLine(linesInFile[line++], "HILAT", highLat)) {
+		if (!ParseKeyedLine(LineInFile(linesInFile, line++), "HILAT", highLat)) {
 			err = -2;
 			goto done;
 		}
 
-		if (!ParseKeyedLine(linesInFile[line++], "LOLONG", lowLon)) {
+		if (!ParseKeyedLine(LineInFile(linesInFile, line++), "LOLONG", lowLon)) {
 			err = -2;
 			goto done;
 		}
 
-		if (!ParseKeyedLine(linesInFile[line++], "HILONG", highLon)) {
+		if (!ParseKeyedLine(LineInFile(linesInFile, line++), "HILONG", highLon)) {
 			err = -2;
 			goto done;
 		}
@@ -12007,7 +12007,7 @@ OSErr TimeGridCurRect_c::ReadHeaderLines(vector<string> &linesInFile,
 	}
 
 	// skip past any blank or [USERDATA] lines
-	currentLine = trim(linesInFile[line++]);
+	currentLine = trim(LineInFile(linesInFile, line++));
 	while (currentLine.size() == 0 ||
 		   currentLine.substr(0, 2) == "[U")
 	{
@@ -12015,7 +12015,7 @@ OSErr TimeGridCurRect_c::ReadHeaderLines(vector<string> &linesInFile,
 			err = -2;	// the file ends before the data starts
 			goto done;
 		}
-		currentLine = trim(linesInFile[line++]);
+		currentLine = trim(LineInFile(linesInFile, line++));
 	}
 
 
@@ -12195,7 +12195,7 @@ OSErr TimeGridCurRect_c::ReadTimeData(long index,
 		goto done;
 	}
 
-	if (!ParseKeyedLine(linesInFile[line++], "[TIME]", time)) {
+	if (!ParseKeyedLine(LineInFile(linesInFile, line++), "[TIME]", time)) {
 		err = -1;
 		TechError("TimeGridCurRect_c::ReadTimeData()", "failed to scan [TIME] row", 0);
 		goto done;
@@ -12224,13 +12224,13 @@ OSErr TimeGridCurRect_c::ReadTimeData(long index,
 		VelocityRec vel;
  		long rowNum, colNum, index;
 
-		if (linesInFile[line].size() == 0) {
+		if (LineInFile(linesInFile, line).size() == 0) {
 			// it's a blank line, allow this and skip the line
 			line++;
 			continue;
 		}
 
-		lineStream.str(linesInFile[line++]);
+		lineStream.str(LineInFile(linesInFile, line++));
 		lineStream.clear();
 		lineStream >> rowNum >> colNum >> vel.u >> vel.v;
 		if (lineStream.fail())
@@ -13057,7 +13057,7 @@ OSErr TimeGridCurTri_c::ReadPtCurVertices(vector<string> &linesInFile,
 		long ptNum;
 		double h, v;
 
-		currentLine = linesInFile[(*line)++];
+		currentLine = LineInFile(linesInFile, (*line)++);
 
 		std::replace(currentLine.begin(), currentLine.end(), ',', ' ');
 
@@ -13247,7 +13247,7 @@ OSErr TimeGridCurTri_c::ReadTimeData(long index,
 		goto done;
 	}
 
-	if (!ParseKeyedLine(linesInFile[line++], "[TIME]", time)) {
+	if (!ParseKeyedLine(LineInFile(linesInFile, line++), "[TIME]", time)) {
 		err = -1;
 		TechError("TimeGridCurTri_c::ReadTimeData()", "failed to scan [TIME] row", 0);
 		goto done;
@@ -13294,7 +13294,7 @@ OSErr TimeGridCurTri_c::ReadTimeData(long index,
 			goto done;
 		}
 		
-		currentLine = linesInFile[line];
+		currentLine = LineInFile(linesInFile, line);
 		
 		istringstream lineStream(currentLine);
 
@@ -13374,7 +13374,7 @@ OSErr TimeGridCurTri_c::TextRead(vector<string> &linesInFile,
 
 	// read past the header
 	for (unsigned long i = 0; i < linesInFile.size(); i++) {
-		currentLine = trim(linesInFile[line++]);
+		currentLine = trim(LineInFile(linesInFile, line++));
 		if (currentLine[0] != '[')
 			break;
 		//err = this->ReadHeaderLine(currentLine);
@@ -13418,7 +13418,7 @@ OSErr TimeGridCurTri_c::TextRead(vector<string> &linesInFile,
 	}
 	
 	MySpinCursor();
-	currentLine = linesInFile[(line)++];
+	currentLine = LineInFile(linesInFile, line++);
 	
 	if (IsBoundarySegmentHeaderLine(currentLine, numBoundarySegs)) {
 		// Boundary data from CATs
@@ -13428,7 +13428,7 @@ OSErr TimeGridCurTri_c::TextRead(vector<string> &linesInFile,
 		if (err)
 			goto done;
 
-		currentLine = linesInFile[(line)++];
+		currentLine = LineInFile(linesInFile, line++);
 		haveBoundaryData = true;
 	}
 	else {
@@ -13448,7 +13448,7 @@ OSErr TimeGridCurTri_c::TextRead(vector<string> &linesInFile,
 		if (err)
 			goto done;
 
-		currentLine = linesInFile[(line)++];
+		currentLine = LineInFile(linesInFile, line++);
 	}
 	else {
 		// not needed for 2D files
@@ -13464,7 +13464,7 @@ OSErr TimeGridCurTri_c::TextRead(vector<string> &linesInFile,
 		if (err)
 			goto done;
 
-		currentLine = linesInFile[(line)++];
+		currentLine = LineInFile(linesInFile, line++);
 	}
 	else {
 		if (!haveBoundaryData) {
@@ -13562,7 +13562,7 @@ OSErr TimeGridCurTri_c::TextRead(vector<string> &linesInFile,
 
 	// scan through the file looking for "[TIME ", then read and record the time, filePosition, and length of data
 	// consider the possibility of multiple files
-	currentLine = linesInFile[(line)++];
+	currentLine = LineInFile(linesInFile, line++);
 
 	if (currentLine.find("[FILE]", 0, 6) == string::npos) {
 		//err = ScanFileForTimes(linesInFile, &fTimeDataHdl, &fTimeHdl);
@@ -13693,7 +13693,7 @@ OSErr TimeGridCurTri_c::ReadHeaderLines(vector<string> &linesInFile,
 	
 	// read past the header
 	for (unsigned long i = 0; i < linesInFile.size(); i++) {
-		currentLine = trim(linesInFile[line++]);
+		currentLine = trim(LineInFile(linesInFile, line++));
 		if (currentLine[0] != '[')
 			break;
 		err = this->ReadHeaderLine(currentLine, uncertainParams);
diff --git a/py_gnome/lib_gnome/TimeGridWind_c.cpp b/py_gnome/lib_gnome/TimeGridWind_c.cpp
index f0e8af6..ffd5f87 100644
--- a/py_gnome/lib_gnome/TimeGridWind_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridWind_c.cpp
@@ -2483,7 +2483,7 @@ OSErr TimeGridWindCurv_c::ReadTopology(vector<string> &linesInFile)
 
 	// No header
 	// start with transformation array and vertices
-	currentLine = linesInFile[(line)++];
+	currentLine = LineInFile(linesInFile, line++);
 	if (IsTransposeArrayHeaderLine(currentLine, numPts)) {
 		err = ReadTransposeArray(linesInFile, &line, &fVerdatToNetCDFH, numPts, errmsg);
 		if (err) {
@@ -2521,7 +2521,7 @@ OSErr TimeGridWindCurv_c::ReadTopology(vector<string> &linesInFile)
 	MySpinCursor();
 
 	//code goes here, boundary points
-	currentLine = linesInFile[(line)++];
+	currentLine = LineInFile(linesInFile, line++);
 	if (IsBoundarySegmentHeaderLine(currentLine, numBoundarySegs)) {
 		// Boundary data from CATs
 		MySpinCursor();
@@ -2531,7 +2531,7 @@ OSErr TimeGridWindCurv_c::ReadTopology(vector<string> &linesInFile)
 		if (err)
 			goto done;
 
-		currentLine = linesInFile[(line)++];
+		currentLine = LineInFile(linesInFile, line++);
 	}
 
 	MySpinCursor(); // JLM 8/4/99
@@ -2546,7 +2546,7 @@ OSErr TimeGridWindCurv_c::ReadTopology(vector<string> &linesInFile)
 									  numWaterBoundaries, numBoundaryPts, errmsg);
 		if (err)
 			goto done;
-		currentLine = linesInFile[(line)++];
+		currentLine = LineInFile(linesInFile, line++);
 	}
 
 	MySpinCursor(); // JLM 8/4/99
@@ -2561,7 +2561,7 @@ OSErr TimeGridWindCurv_c::ReadTopology(vector<string> &linesInFile)
 								  numBoundaryPts, errmsg);
 		if (err)
 			goto done;
-		currentLine = linesInFile[(line)++];
+		currentLine = LineInFile(linesInFile, line++);
 	}
 
 	MySpinCursor(); // JLM 8/4/99
@@ -2575,7 +2575,7 @@ OSErr TimeGridWindCurv_c::ReadTopology(vector<string> &linesInFile)
 								errmsg, numTopoPoints, FALSE);
 		if (err)
 			goto done;
-		currentLine = linesInFile[(line)++];
+		currentLine = LineInFile(linesInFile, line++);
 	}
 	else {
 		err = -1; // for now we require TTopology
diff --git a/py_gnome/lib_gnome/TimeValuesIO.cpp b/py_gnome/lib_gnome/TimeValuesIO.cpp
index dc08141..af79789 100644
--- a/py_gnome/lib_gnome/TimeValuesIO.cpp
+++ b/py_gnome/lib_gnome/TimeValuesIO.cpp
@@ -78,13 +78,13 @@ bool IsLongWindFile(vector<string> &linesInFile, short *selectedUnitsOut, bool *
 
 	// Third line, units
 	// Note: We are not supporting cm/sec in gnome
-	currentLine = trim(linesInFile[line++]);
+	currentLine = trim(LineInFile(linesInFile, line++));
 	selectedUnits = StrToSpeedUnits((char *)currentLine.c_str());
 	if (selectedUnits == kUndefined)
 		return false;
 
 	// fourth line, local or GMT time
-	currentLine = trim(linesInFile[line++]);
+	currentLine = trim(LineInFile(linesInFile, line++));
 	std::transform(currentLine.begin(),
 				   currentLine.end(),
 				   currentLine.begin(),
@@ -117,7 +117,7 @@ bool IsLongWindFile(vector<string> &linesInFile, short *selectedUnitsOut, bool *
 
 	// fifth line, grid.  For now we ignore this.
 	// fifth line, potential first line of data. Now we are allowing 4 line header -
-	currentLine = trim(linesInFile[line++]);
+	currentLine = trim(LineInFile(linesInFile, line++));
 	std::replace(currentLine.begin(), currentLine.end(), ',', ' ');
 	if (!ParseLine(currentLine, time, val1Str, val2Str))
 	{
@@ -142,7 +142,7 @@ bool IsLongWindFile(vector<string> &linesInFile, short *selectedUnitsOut, bool *
 	//line++;
 
 	// sixth line, first line of data
-	currentLine = trim(linesInFile[line++]);
+	currentLine = trim(LineInFile(linesInFile, line++));
 
 	std::replace(currentLine.begin(), currentLine.end(), ',', ' ');
 	//if (!ParseLine(currentLine, time, velocity))
@@ -178,7 +178,7 @@ bool IsNDBCWindFile(vector<string> &linesInFile, long *numHeaderLines)
 
 	*numHeaderLines = 0;	// if we return false don't set this value
 
-	currentLine = trim(linesInFile[0]);
+	currentLine = trim(LineInFile(linesInFile, 0));
 
 	if (currentLine == "#YY") {
 		*numHeaderLines = 2;
@@ -212,7 +212,7 @@ bool IsNCDCWindFile(vector<string> &linesInFile)
 	string value;
 
 	// first line , header - USAF  WBAN YR--MODAHRMN DIR SPD GUS CLG SKC L M H  VSB MW MW MW MW AW AW AW AW W TEMP DEWP    SLP   ALT    STP MAX MIN PCP01 PCP06 PCP24 PCPXX SD
-	if (ParseKeyedLine(linesInFile[line++], "USAF", value))
+	if (ParseKeyedLine(LineInFile(linesInFile, line++), "USAF", value))
 		return true;
 	else
 		return false;
@@ -249,7 +249,7 @@ bool IsHydrologyFile(vector<string> &linesInFile)
 	// Third line, units, only cubic feet per second for now
 	// added cubic meters per second, and the k versions
 	// which should cover all cases 5/18/01
-	currentLine = trim(linesInFile[line++]);
+	currentLine = trim(LineInFile(linesInFile, line++));
 	std::transform(currentLine.begin(),
 				   currentLine.end(),
 				   currentLine.begin(),
@@ -263,7 +263,7 @@ bool IsHydrologyFile(vector<string> &linesInFile)
 	}
 
 	// fourth line, first line of data
-	currentLine = trim(linesInFile[line++]);
+	currentLine = trim(LineInFile(linesInFile, line++));
 	std::replace(currentLine.begin(), currentLine.end(), ',', ' ');
 
 	if (!ParseLine(currentLine, time, velocity))
@@ -305,13 +305,13 @@ bool IsOSSMTimeFile(vector<string> &linesInFile, short *selectedUnitsOut)
 
 	// Third line, units
 	// Note: We are not supporting cm/sec in gnome
-	currentLine = trim(linesInFile[line++]);
+	currentLine = trim(LineInFile(linesInFile, line++));
 	selectedUnits = StrToSpeedUnits((char *)currentLine.c_str());
 	if (selectedUnits == kUndefined)
 		return false;
 
 	// fourth line, first line of data
-	currentLine = trim(linesInFile[line++]);
+	currentLine = trim(LineInFile(linesInFile, line++));
 	std::replace(currentLine.begin(), currentLine.end(), ',', ' ');
 
 	if (!ParseLine(currentLine, time, val1Str, val2Str))
@@ -355,14 +355,14 @@ bool IsOSSMHeightFile(vector<string> &linesInFile, short *selectedUnitsP)
 
 	// third line, units
 	// note we are not supporting cm/sec in gnome
-	currentLine = trim(linesInFile[line++]);
+	currentLine = trim(LineInFile(linesInFile, line++));
 
 	selectedUnits = StrToSpeedUnits((char *)currentLine.c_str());
 	if(selectedUnits == kUndefined)
 		bIsValid = false;
 
 	// fourth line, first line of data
-	currentLine = trim(linesInFile[line++]);
+	currentLine = trim(LineInFile(linesInFile, line++));
 
 	std::replace(currentLine.begin(), currentLine.end(), ',', ' ');
 	if (!ParseLine(currentLine, time, velocity))
@@ -397,7 +397,7 @@ bool IsTimeFile(vector<string> &linesInFile)
 	DateTimeRec time;
 	//VelocityRec velocity;
 
-	currentLine = linesInFile[line++];
+	currentLine = LineInFile(linesInFile, line++);
 
 	std::replace(currentLine.begin(), currentLine.end(), ',', ' ');
 	if (!ParseLine(currentLine, time, val1Str, val2Str))
-- 
2.43.0


From e2286a08824b22100c689143ce31a126cc237d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 103/146] fix: empty files were written before the start of a
 buffer

---
 py_gnome/lib_gnome/OSSMTimeValue_c.cpp | 2 ++
 py_gnome/lib_gnome/TimeGridVel_c.cpp   | 4 ++++
 py_gnome/lib_gnome/TimeValuesIO.cpp    | 1 +
 3 files changed, 7 insertions(+)

diff --git a/py_gnome/lib_gnome/OSSMTimeValue_c.cpp b/py_gnome/lib_gnome/OSSMTimeValue_c.cpp
index 39ab30a..5767e9f 100644
--- a/py_gnome/lib_gnome/OSSMTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/OSSMTimeValue_c.cpp
@@ -1160,6 +1160,8 @@ OSErr OSSMTimeValue_c::ReadOSSMTimeHeader(char *path)
         return err;
 
     lenToRead = _min(512, fileLength);
+    if (lenToRead <= 0)
+        return -1;
 
     err = ReadSectionOfFile(0, 0, path, 0, lenToRead, firstPartOfFile, 0);
     if (err)
diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 84e59ce..e3acd73 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -53,6 +53,8 @@ Boolean IsNetCDFPathsFile (char *path, Boolean *isNetCDFPathsFile, char *fileNam
 		return false;
 
 	lenToRead = _min(512, fileLength);
+	if (lenToRead <= 0)
+		return false;
 
 	err = ReadSectionOfFile(0, 0, path, 0, lenToRead, firstPartOfFile, 0);
 	firstPartOfFile[lenToRead - 1] = 0; // make sure it is a cString
@@ -122,6 +124,8 @@ Boolean IsNetCDFFile (char *path, short *gridType)
 		return false;
 	
 	lenToRead = _min(512, fileLength);
+	if (lenToRead <= 0)
+		return false;
 	
 	err = ReadSectionOfFile(0, 0, path, 0, lenToRead, firstPartOfFile, 0);
 	firstPartOfFile[lenToRead - 1] = 0; // make sure it is a cString
diff --git a/py_gnome/lib_gnome/TimeValuesIO.cpp b/py_gnome/lib_gnome/TimeValuesIO.cpp
index af79789..45a5d77 100644
--- a/py_gnome/lib_gnome/TimeValuesIO.cpp
+++ b/py_gnome/lib_gnome/TimeValuesIO.cpp
@@ -432,6 +432,7 @@ Boolean IsTimeFile(char* path)
 	if(err) return false;
 
 	lenToRead = _min(512,fileLength);
+	if(lenToRead <= 0) return false;
 
 	err = ReadSectionOfFile(0,0,path,0,lenToRead,firstPartOfFile,0);
 	firstPartOfFile[lenToRead-1] = 0; // make sure it is a cString
-- 
2.43.0


From 7c40bf53eef382d475c71cd1a3afc75d6d662db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 104/146] fix: triangles were made beyond their arrays

---
 py_gnome/lib_gnome/MakeTriangles.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/MakeTriangles.cpp b/py_gnome/lib_gnome/MakeTriangles.cpp
index 7cce68e..24b414b 100644
--- a/py_gnome/lib_gnome/MakeTriangles.cpp
+++ b/py_gnome/lib_gnome/MakeTriangles.cpp
@@ -389,6 +389,11 @@ Boolean maketriangles(TopologyHdl *topoHdl, LongPointHdl ptsH, long nv, LONGH bo
 	for (;;) {
 		if (segCount == nbounds)
 			break;
+		if (pt >= nv) {
+			printError("The boundary segments do not match the points.");
+			err = true;
+			goto errRecovery;
+		}
 		l[nlines].a = pt;
 		l[nlines].flg = -1;
 
@@ -493,10 +498,11 @@ Boolean maketriangles(TopologyHdl *topoHdl, LongPointHdl ptsH, long nv, LONGH bo
 			}
 			/* add triangle to triangle list */
 			ntri=ntri+1;
-			if(ntri > triscale*nv)
+			if(ntri >= triscale*nv || nlines + 2 > 8*nv)
 			{
 				printError("Problem generating triangles. There may be a problem with "
 				"boundary orientation.");
+				err = true;
 				goto errRecovery;
 			}
 			
@@ -780,6 +786,11 @@ Boolean maketriangles2(TopologyHdl *topoHdl, LongPointHdl ptsH, long nv, LONGH b
 	for(;;)
 	{
 		if(segCount==nbounds)break;
+		if (pt >= nv) {
+			printError("The boundary segments do not match the points.");
+			err = true;
+			goto errRecovery;
+		}
 		l[nlines].a=pt;
 		l[nlines].flg=-1;
 		//if(pt== (*gSegs)[segCount]){
@@ -882,10 +893,11 @@ Boolean maketriangles2(TopologyHdl *topoHdl, LongPointHdl ptsH, long nv, LONGH b
 			/* add triangle to triangle list */
 			
 			ntri=ntri+1;
-			if(ntri > triscale*nv)
+			if(ntri >= triscale*nv || nlines + 2 > 8*nv)
 			{
 				printError("Problem generating triangles. There may be a problem with "
 				"boundary orientation.");
+				err = true;
 				goto errRecovery;
 			}
 			
-- 
2.43.0


From b5a0ae0039d11e8b74edf624aca2ea75c2359d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 105/146] fix: tides with fewer phases than amplitudes were
 read past the end

---
 py_gnome/lib_gnome/CurrentCycleMover_c.cpp | 8 +++++++-
 py_gnome/lib_gnome/ShioTimeValue_c.cpp     | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
index f1c4a57..d874b84 100644
--- a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
+++ b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
@@ -103,7 +103,13 @@ OSErr CurrentCycleMover_c::PrepareForModelStep(const Seconds &model_time, const
 	{
 	//printNote("Got Here - timedep prepareformodelstep\n");	
 //#ifndef pyGNOME	
-		dynamic_cast<TShioTimeValue*> (timeDep) -> GetLocationInTideCycle(model_time,&ebbFloodType,&fraction);
+		TShioTimeValue *shioTimeValue = dynamic_cast<TShioTimeValue*> (timeDep);
+		if (!shioTimeValue) {
+			// only tidal constituents tell where in the cycle we are
+			printError("A CurrentCycleMover needs a tide of tidal constituents.");
+			return -1;
+		}
+		shioTimeValue -> GetLocationInTideCycle(model_time,&ebbFloodType,&fraction);
 //#else
 		//timeDep -> GetLocationInTideCycle(model_time,&ebbFloodType,&fraction);
 //#endif
diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 9a5e936..9115043 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -1559,6 +1559,7 @@ OSErr ShioTimeValue_c::ReadShioValues (char *path)
 skipDatumControls:
 	if ((err = this->GetKeyedValue(f, "H=", lineNum++, strLine, &this->fConstituent.H)) != 0)  goto readError;
 	if ((err = this->GetKeyedValue(f, "kPrime=", lineNum++, strLine, &this->fConstituent.kPrime)) != 0)  goto readError;
+	if (_GetHandleSize((Handle)this->fConstituent.kPrime) < _GetHandleSize((Handle)this->fConstituent.H)) {err = -1; goto readError;}
 
 	if (!(p = GetKeyedLine(f,"[Offset]",lineNum++,strLine)))  goto readError;
 
-- 
2.43.0


From 9be07a8687354895d3b52c9d30886136e668a8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 106/146] fix: a ComponentMover whose first pattern cannot be
 read crashed

---
 py_gnome/lib_gnome/ComponentMover_c.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/ComponentMover_c.cpp b/py_gnome/lib_gnome/ComponentMover_c.cpp
index 458bae7..f3869d5 100644
--- a/py_gnome/lib_gnome/ComponentMover_c.cpp
+++ b/py_gnome/lib_gnome/ComponentMover_c.cpp
@@ -922,7 +922,8 @@ OSErr ComponentMover_c::TextRead(char *cats_path1, char *cats_path2)
 		return -1;
 	}
 	err = newCATSMover1->TextRead(cats_path1);
-	if (!err) pattern1 = newCATSMover1;
+	if (err) return err;
+	pattern1 = newCATSMover1;
 
 	if (cats_path2[0]) 
 	{
-- 
2.43.0


From 7f8e5ba5487d5d67b31e69e5f9ddd56a17e01c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 107/146] fix: points of a topology file that refer to no value
 were used

---
 py_gnome/lib_gnome/DagTreeIO.cpp      | 20 ++++++++++++++++++++
 py_gnome/lib_gnome/DagTreeIO.h        |  1 +
 py_gnome/lib_gnome/TimeGridVel_c.cpp  |  6 ++++--
 py_gnome/lib_gnome/TimeGridWind_c.cpp |  3 ++-
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/py_gnome/lib_gnome/DagTreeIO.cpp b/py_gnome/lib_gnome/DagTreeIO.cpp
index ed4874e..6fcc3c2 100644
--- a/py_gnome/lib_gnome/DagTreeIO.cpp
+++ b/py_gnome/lib_gnome/DagTreeIO.cpp
@@ -467,6 +467,26 @@ long FindTriThirdPoint(long **longH,long p1, long p2, long index)
 
 		return (*longH)[index];
 
+//////////////////////////////////////////////////////////////////////
+// Does every point of a mesh refer to one of the values of the data file?
+//////////////////////////////////////////////////////////////////////
+bool TransposeArrayIsValid(LONGH transposeArrayH, LongPointHdl ptsH, long numValues)
+{
+	long numPts = _GetHandleSize((Handle)ptsH) / sizeof(LongPoint);
+
+	if (_GetHandleSize((Handle)transposeArrayH) / (long)sizeof(long) < numPts)
+		return false;
+
+	for (long i = 0; i < numPts; i++) {
+		long index = (*transposeArrayH)[i];
+
+		if (index < 0 || index >= numValues)
+			return false;
+	}
+
+	return true;
+}
+
 	else if ((p1 == (*longH)[index+2]) || (p2 == (*longH)[index]))
 
 		return (*longH)[index+1];
diff --git a/py_gnome/lib_gnome/DagTreeIO.h b/py_gnome/lib_gnome/DagTreeIO.h
index f971af8..52fd40a 100644
--- a/py_gnome/lib_gnome/DagTreeIO.h
+++ b/py_gnome/lib_gnome/DagTreeIO.h
@@ -48,6 +48,7 @@ OSErr ReadTVerticesBody(CHARH fileBufH,long *line,
 
 bool MeshIndexesAreValid(LongPointHdl ptsH, TopologyHdl topH, DAGHdl treeH);
 long FindTriThirdPoint(long **longH,long p1, long p2, long index);
+bool TransposeArrayIsValid(LONGH transposeArrayH, LongPointHdl ptsH, long numValues);
 int	Right_or_Left_of_Segment(LongPointHdl ptsH,long ref_p1,long ref_p2, LongPoint test_p1);
 long WhatTriIsPtIn(DAGHdl treeH,TopologyHdl topH, LongPointHdl ptsH,LongPoint pt);
 
diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index e3acd73..90cf48c 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -6541,7 +6541,8 @@ OSErr TimeGridVelCurv_c::ReadTopology(vector<string> &linesInFile)
 		if (err)
 			goto done;
 
-		if (!MeshIndexesAreValid(pts, topo, tree.treeHdl)) {
+		if (!MeshIndexesAreValid(pts, topo, tree.treeHdl)
+			|| !TransposeArrayIsValid(fVerdatToNetCDFH, pts, bVelocitiesOnNodes ? fNumRows * fNumCols : (fNumRows + 1) * (fNumCols + 1))) {
 			err = -1;
 			strcpy(errmsg, "Error in the topology or the dag tree: index out of range");
 			goto done;
@@ -10621,7 +10622,8 @@ OSErr TimeGridVelTri_c::ReadTopology(vector<string> &linesInFile)
 		if (err)
 			goto done;
 
-		if (!MeshIndexesAreValid(pts, topo, tree.treeHdl)) {
+		if (!MeshIndexesAreValid(pts, topo, tree.treeHdl)
+			|| (fVerdatToNetCDFH && !TransposeArrayIsValid(fVerdatToNetCDFH, pts, fNumNodes))) {
 			err = -1;
 			strcpy(errmsg, "Error in the topology or the dag tree: index out of range");
 			goto done;
diff --git a/py_gnome/lib_gnome/TimeGridWind_c.cpp b/py_gnome/lib_gnome/TimeGridWind_c.cpp
index ffd5f87..d3762e1 100644
--- a/py_gnome/lib_gnome/TimeGridWind_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridWind_c.cpp
@@ -2596,7 +2596,8 @@ OSErr TimeGridWindCurv_c::ReadTopology(vector<string> &linesInFile)
 		if (err)
 			goto done;
 
-		if (!MeshIndexesAreValid(pts, topo, tree.treeHdl)) {
+		if (!MeshIndexesAreValid(pts, topo, tree.treeHdl)
+			|| !TransposeArrayIsValid(fVerdatToNetCDFH, pts, bVelocitiesOnNodes ? fNumRows * fNumCols : (fNumRows + 1) * (fNumCols + 1))) {
 			err = -1;
 			strcpy(errmsg, "Error in the topology or the dag tree: index out of range");
 			goto done;
-- 
2.43.0


From 0abd619f7661d4d921b4cc32b66d0acf085fa850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:42 +0000
Subject: [PATCH 108/146] fix: triangles that overlap or refer to no point were
 sorted into a tree

---
 py_gnome/lib_gnome/DagTreeIO.cpp   | 55 +++++++++++++++++++-----------
 py_gnome/lib_gnome/DagTreeIO.h     |  3 +-
 py_gnome/lib_gnome/MakeDagTree.cpp | 11 ++++++
 3 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/py_gnome/lib_gnome/DagTreeIO.cpp b/py_gnome/lib_gnome/DagTreeIO.cpp
index 6fcc3c2..e89e5f5 100644
--- a/py_gnome/lib_gnome/DagTreeIO.cpp
+++ b/py_gnome/lib_gnome/DagTreeIO.cpp
@@ -413,17 +413,16 @@ OSErr ReadTTopology(CHARH fileBufH, long *line,
 
 
 //////////////////////////////////////////////////////////////////////
-// Do the triangles and the search tree of a file only refer to points,
-// triangles and branches that there are?
+// Do the triangles of a file only refer to points and triangles that
+// there are?
 //////////////////////////////////////////////////////////////////////
-bool MeshIndexesAreValid(LongPointHdl ptsH, TopologyHdl topH, DAGHdl treeH)
+bool TopologyIsValid(LongPointHdl ptsH, TopologyHdl topH)
 {
 	long numPts = _GetHandleSize((Handle)ptsH) / sizeof(LongPoint);
 	long numTri = _GetHandleSize((Handle)topH) / sizeof(Topology);
-	long numBranches = _GetHandleSize((Handle)treeH) / sizeof(DAG);
 	long **longH = (long **)topH;
 
-	if (numPts <= 0 || numTri <= 0 || numBranches <= 0)
+	if (numPts <= 0 || numTri <= 0)
 		return false;
 
 	for (long i = 0; i < numTri; i++) {
@@ -436,6 +435,22 @@ bool MeshIndexesAreValid(LongPointHdl ptsH, TopologyHdl topH, DAGHdl treeH)
 		}
 	}
 
+	return true;
+}
+
+
+//////////////////////////////////////////////////////////////////////
+// And does the search tree only refer to triangles and branches that
+// there are?
+//////////////////////////////////////////////////////////////////////
+bool MeshIndexesAreValid(LongPointHdl ptsH, TopologyHdl topH, DAGHdl treeH)
+{
+	long numTri = _GetHandleSize((Handle)topH) / sizeof(Topology);
+	long numBranches = _GetHandleSize((Handle)treeH) / sizeof(DAG);
+
+	if (numBranches <= 0 || !TopologyIsValid(ptsH, topH))
+		return false;
+
 	for (long i = 0; i < numBranches; i++) {
 		DAG branch = (*treeH)[i];
 
@@ -452,21 +467,6 @@ bool MeshIndexesAreValid(LongPointHdl ptsH, TopologyHdl topH, DAGHdl treeH)
 	return true;
 }
 
-
-//////////////////////////////////////////////////////////////////////
-// Find the third point of the triangle to the right of the segment
-//////////////////////////////////////////////////////////////////////
-long FindTriThirdPoint(long **longH,long p1, long p2, long index)
-
-{
-	if ((p1 == (*longH)[index]) || (p2 == (*longH)[index+1]))
-
-		return (*longH)[index+2];
-
-	else if ((p1 == (*longH)[index+1]) || (p2 == (*longH)[index+2]))
-
-		return (*longH)[index];
-
 //////////////////////////////////////////////////////////////////////
 // Does every point of a mesh refer to one of the values of the data file?
 //////////////////////////////////////////////////////////////////////
@@ -487,6 +487,21 @@ bool TransposeArrayIsValid(LONGH transposeArrayH, LongPointHdl ptsH, long numVal
 	return true;
 }
 
+
+//////////////////////////////////////////////////////////////////////
+// Find the third point of the triangle to the right of the segment
+//////////////////////////////////////////////////////////////////////
+long FindTriThirdPoint(long **longH,long p1, long p2, long index)
+
+{
+	if ((p1 == (*longH)[index]) || (p2 == (*longH)[index+1]))
+
+		return (*longH)[index+2];
+
+	else if ((p1 == (*longH)[index+1]) || (p2 == (*longH)[index+2]))
+
+		return (*longH)[index];
+
 	else if ((p1 == (*longH)[index+2]) || (p2 == (*longH)[index]))
 
 		return (*longH)[index+1];
diff --git a/py_gnome/lib_gnome/DagTreeIO.h b/py_gnome/lib_gnome/DagTreeIO.h
index 52fd40a..92eecdc 100644
--- a/py_gnome/lib_gnome/DagTreeIO.h
+++ b/py_gnome/lib_gnome/DagTreeIO.h
@@ -46,9 +46,10 @@ OSErr ReadTVerticesBody(CHARH fileBufH,long *line,
 						LongPointHdl *pointsH, FLOATH *depthsH, char *errmsg,
 						long numPoints,Boolean wantDepths);
 
+bool TopologyIsValid(LongPointHdl ptsH, TopologyHdl topH);
 bool MeshIndexesAreValid(LongPointHdl ptsH, TopologyHdl topH, DAGHdl treeH);
-long FindTriThirdPoint(long **longH,long p1, long p2, long index);
 bool TransposeArrayIsValid(LONGH transposeArrayH, LongPointHdl ptsH, long numValues);
+long FindTriThirdPoint(long **longH,long p1, long p2, long index);
 int	Right_or_Left_of_Segment(LongPointHdl ptsH,long ref_p1,long ref_p2, LongPoint test_p1);
 long WhatTriIsPtIn(DAGHdl treeH,TopologyHdl topH, LongPointHdl ptsH,LongPoint pt);
 
diff --git a/py_gnome/lib_gnome/MakeDagTree.cpp b/py_gnome/lib_gnome/MakeDagTree.cpp
index abed52c..36bcab8 100644
--- a/py_gnome/lib_gnome/MakeDagTree.cpp
+++ b/py_gnome/lib_gnome/MakeDagTree.cpp
@@ -16,6 +16,7 @@ DAGTreeStruct gDagTree;
 WORLDPOINTDH gCoord;
 Side_List **gSidesList;
 long gAllocatedDagLength = 0;
+long gMaxDagLength = 0;
 char gErrStr[256];
 #define NUMTOALLOCATE  500
 #define NUMTESTS	300
@@ -231,6 +232,11 @@ DAGTreeStruct  MakeDagTree(TopologyHdl topoHdl, LongPoint **pointList, char *err
 	strcpy(errStr,"");
 	dagTree.treeHdl = 0;
 	dagTree.numBranches = 0;
+	if (!TopologyIsValid(pointList, topoHdl))
+	{
+		strcpy(errStr,"Triangles with points or neighbours that there are not");
+		goto done;
+	}
 	sidesList=BuildSideList(topoHdl, errStr);
 
 	//input checking
@@ -253,6 +259,7 @@ DAGTreeStruct  MakeDagTree(TopologyHdl topoHdl, LongPoint **pointList, char *err
 	// make a better guess of size here
 	gErrStr[0] = 0;
 	gAllocatedDagLength = 2*numSidesInList;
+	gMaxDagLength = 1000*numSidesInList;	// triangles that overlap make the tree grow without end
 
 	gDagTree.numBranches=0;
 	gDagTree.treeHdl = (DAG**)_NewHandleClear(gAllocatedDagLength*sizeof(DAG));
@@ -330,6 +337,10 @@ void IncrementGDagTree(void)
 	// increment the counter and allocate more memory if needed
 	OSErr err = noErr;
 	gDagTree.numBranches ++;
+	if(gDagTree.numBranches > gMaxDagLength)
+	{
+		strcpy(gErrStr,"The triangles cannot be sorted into a DAG tree, do they overlap?");
+	}
 	if(gDagTree.numBranches  >= gAllocatedDagLength)
 	{									// then allocate more memory
 		long newNumber = gAllocatedDagLength + NUMTOALLOCATE;
-- 
2.43.0


From 22c0829e51c403a7e1e530ca98625e6665b83eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:42 +0000
Subject: [PATCH 109/146] fix: current files without times, and of the length
 of the buffer, were read past the end

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 90cf48c..e8b44f6 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -11691,7 +11691,8 @@ OSErr ScanFileForTimes(char * path, vector<string> &linesInFile,
 	lengthRemainingToScan = fileLength - 5;
 	// loop until whole file is read 
 	
-	h = (CHARH)_NewHandle(2* kGridCurFileBufferSize+1);
+	// the last part also holds the 5 characters that are not scanned
+	h = (CHARH)_NewHandle(2* kGridCurFileBufferSize+kGridCurFileBufferExtraCharSize+1);
 	if(!h){TechError("ScanFileForTimes()", "_NewHandle()", 0); err = memFullErr; goto done;}
 	
 	_HLock((Handle)h);
@@ -11789,6 +11790,12 @@ OSErr ScanFileForTimes(char * path, vector<string> &linesInFile,
 	{
 		(*timeDataHdl)[numTimeBlocks-1].lengthOfData = fileLength - (*timeDataHdl)[numTimeBlocks-1].fileOffsetToStartOfData;				
 	}
+	else
+	{
+		err = -1;
+		TechError("ScanFileForTimes()", "no [TIME] in the file", 0);
+		goto done;
+	}
 	*timeDataH = timeDataHdl;
 	*timeH = timeHdl;
 	
-- 
2.43.0


From 45fb54495545df0ab6ad3eef279960ffe2e7e64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:49 +0000
Subject: [PATCH 110/146] fix: counts of points and depths of PtCur files were
 taken as they came

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index e8b44f6..f2b5a9d 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -13130,7 +13130,11 @@ OSErr TimeGridCurTri_c::ReadPtCurVertices(vector<string> &linesInFile,
 				numDepths++;
 			}
 
-			if (numDepths == 1) {
+			if (numDepths == 0) {
+				strcpy(errmsg, "A point of the PtCur file has no depth.");
+				goto done;
+			}
+			else if (numDepths == 1) {
 				// first one is actual depth at the location
 				(*depthDataInfo)[i].numDepths = numDepths;
 				index += numDepths;
@@ -13402,6 +13406,12 @@ OSErr TimeGridCurTri_c::TextRead(vector<string> &linesInFile,
 	if (IsPtCurVerticesHeaderLine(currentLine, numPoints, fNumLandPts)) {
 		MySpinCursor();
 
+		if (numPoints <= 0 || fNumLandPts < 0 || fNumLandPts > numPoints) {
+			err = -1;
+			printError("Unable to read PtCur Triangle Velocity file.");
+			goto done;
+		}
+
 		err = ReadPtCurVertices(linesInFile, &line, &pts, &bathymetryH, errmsg, numPoints);
 		if (err)
 			goto done;
-- 
2.43.0


From e97a4bc26f33bf75ac45a7ccd9139c6b5f58dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:56 +0000
Subject: [PATCH 111/146] fix: oil leaving a ParamMap was counted off the map
 three times

---
 py_gnome/gnome/maps/map.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index c026689..a38ee68 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -656,7 +656,6 @@ class ParamMap(GnomeMap):
         the land is so simple the collisions are detected via intersection.
         """
         self.resurface_airborne_elements(sc)
-        self._set_off_map_status(sc)
 
         start_pos = sc['positions']
         next_pos = sc['next_positions']
@@ -668,18 +667,9 @@ class ParamMap(GnomeMap):
         move_particles(start_pos, next_pos, status_codes,
                        last_water_positions, self.land_points)
 
+        # this updates 'off_maps'/'beached' in mass_balance
         self._set_off_map_status(sc)
 
-        # todo: need a prepare_for_model_run() so map adds these keys to
-        #     mass_balance as opposed to SpillContainer
-        # update 'off_maps'/'beached' in mass_balance
-        # note: this requires that the elements get removed before the
-        #       next timestep, or it would get double counted.
-        sc.mass_balance['beached'] = \
-            sc['mass'][sc['status_codes'] == oil_status.on_land].sum()
-        sc.mass_balance['off_maps'] += \
-            sc['mass'][sc['status_codes'] == oil_status.off_maps].sum()
-
     def refloat_elements(self, spill_container, time_step, model_time=None):
         """
         This method performs the re-float logic -- changing the element
-- 
2.43.0


From 3721222ccf518f7d9f2f2404a5720a98888150e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:18 +0000
Subject: [PATCH 112/146] fix: uncertainty of native grid currents ended after
 the first step of backward runs

---
 py_gnome/lib_gnome/CurrentCycleMover_c.cpp | 2 +-
 py_gnome/lib_gnome/GridCurrentMover_c.cpp  | 2 +-
 py_gnome/lib_gnome/GridWndMover_c.cpp      | 2 +-
 py_gnome/lib_gnome/IceMover_c.cpp          | 2 +-
 py_gnome/lib_gnome/IceWindMover_c.cpp      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
index d874b84..fa6fd44 100644
--- a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
+++ b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
@@ -144,7 +144,7 @@ OSErr CurrentCycleMover_c::PrepareForModelStep(const Seconds &model_time, const
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
diff --git a/py_gnome/lib_gnome/GridCurrentMover_c.cpp b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
index 2263dc7..2a1a5b1 100644
--- a/py_gnome/lib_gnome/GridCurrentMover_c.cpp
+++ b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
@@ -194,7 +194,7 @@ OSErr GridCurrentMover_c::PrepareForModelStep(const Seconds &model_time, const S
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
diff --git a/py_gnome/lib_gnome/GridWndMover_c.cpp b/py_gnome/lib_gnome/GridWndMover_c.cpp
index 5961c19..8c67ee7 100644
--- a/py_gnome/lib_gnome/GridWndMover_c.cpp
+++ b/py_gnome/lib_gnome/GridWndMover_c.cpp
@@ -58,7 +58,7 @@ OSErr GridWndMover_c::PrepareForModelStep(const Seconds& model_time,
 	errmsg[0] = 0;
 
 	if (uncertain) {
-		Seconds elapsed_time = model_time - fModelStartTime;
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 
diff --git a/py_gnome/lib_gnome/IceMover_c.cpp b/py_gnome/lib_gnome/IceMover_c.cpp
index 7588367..3ae51cd 100644
--- a/py_gnome/lib_gnome/IceMover_c.cpp
+++ b/py_gnome/lib_gnome/IceMover_c.cpp
@@ -192,7 +192,7 @@ OSErr IceMover_c::PrepareForModelStep(const Seconds &model_time, const Seconds &
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
diff --git a/py_gnome/lib_gnome/IceWindMover_c.cpp b/py_gnome/lib_gnome/IceWindMover_c.cpp
index bd19324..fce393f 100644
--- a/py_gnome/lib_gnome/IceWindMover_c.cpp
+++ b/py_gnome/lib_gnome/IceWindMover_c.cpp
@@ -138,7 +138,7 @@ OSErr IceWindMover_c::PrepareForModelStep(const Seconds &model_time, const Secon
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
-- 
2.43.0


From 4966348a8e7d0502f0d3a1acc39546a1de87e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:24 +0000
Subject: [PATCH 113/146] fix: check_inputs: a model built with a negative time
 step was told its spills are released after the run

---
 py_gnome/gnome/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index f334511..9de05bd 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1714,7 +1714,7 @@ class Model(GnomeId):
 
 
 
-                if not self.run_backwards:
+                if self.time_step > 0:
                     if spill.release_time < self.start_time + self.duration:
                         someSpillIntersectsModel = True
                 else:
-- 
2.43.0


From 32fa4ade4367408215870e480babbcdc509e81c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:36 +0000
Subject: [PATCH 114/146] fix: get_spill_data compared whole numbers only:
 conditions on masses and other real values were cut to integers

---
 py_gnome/gnome/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 9de05bd..8a18516 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -38,6 +38,7 @@ from datetime import datetime, timedelta
 import zipfile
 from pprint import pformat
 import copy
+import operator
 import warnings
 
 import numpy as np
@@ -1980,9 +1981,13 @@ class Model(GnomeId):
 
             return False
 
+        comparisons = {'<': operator.lt, '<=': operator.le,
+                       '>': operator.gt, '>=': operator.ge,
+                       '==': operator.eq}
+
         def test(elem_value, op, test_val):
-            if op in {'<', '<=', '>', '>=', '=='}:
-                return eval(str(int(elem_value)) + op + test_val)
+            if op in comparisons:
+                return comparisons[op](elem_value, num(test_val))
 
         def num(s):
             try:
-- 
2.43.0


From d8cabc28029ab9442d1fdd4c2372d51be4986b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:36 +0000
Subject: [PATCH 115/146] fix: chemical dispersion with an efficiency was
 refused for want of waves it does not use

---
 py_gnome/gnome/weatherers/cleanup.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index 4476be5..1803a6a 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -808,6 +808,15 @@ class ChemicalDispersion(CleanUpBase):
         # then it is used, rather than any computation being made.
         self.make_default_refs = False if efficiency else True
 
+    def validate(self):
+        '''
+        waves are only needed to estimate the efficiency
+        '''
+        if self.efficiency is not None:
+            return ([], True)
+
+        return super(ChemicalDispersion, self).validate()
+
     def prepare_for_model_run(self, sc):
         '''
         reset _rate to None. It gets set when LEs are marked to be dispersed.
-- 
2.43.0


From f1f9070c9f1d7d76e6fee888b38996c9ee5dbb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:20 +0000
Subject: [PATCH 116/146] fix: elements in the first triangle of a mesh with
 velocities on its triangles did not move

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index f2b5a9d..ee296a1 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -8790,7 +8790,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue(const Seconds& model_time, World
 		}
 		else	// if negative corresponds to negative ntri, set vel to zero
 		{
-			if (bVelocitiesOnTriangles && triIndex > 0)
+			if (bVelocitiesOnTriangles && triIndex >= 0)
 			{
 				scaledPatVelocity.u = INDEXH(fStartData.dataHdl,triIndex).u;
 				scaledPatVelocity.v = INDEXH(fStartData.dataHdl,triIndex).v;
@@ -8838,7 +8838,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue(const Seconds& model_time, World
 		}
 		else	// if negative corresponds to negative ntri, set vel to zero
 		{
-			if (bVelocitiesOnTriangles && triIndex > 0)
+			if (bVelocitiesOnTriangles && triIndex >= 0)
 			{
 				scaledPatVelocity.u = timeAlpha*INDEXH(fStartData.dataHdl,triIndex).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,triIndex).u;
 				scaledPatVelocity.v = timeAlpha*INDEXH(fStartData.dataHdl,triIndex).v + (1-timeAlpha)*INDEXH(fEndData.dataHdl,triIndex).v;
-- 
2.43.0


From 71c14000e4af27e8a5aaa5a444c454aa82d77d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:20 +0000
Subject: [PATCH 117/146] fix: triangular currents due east, west, north or
 south were read as no current

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index ee296a1..35bb039 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -9852,8 +9852,6 @@ OSErr TimeGridVelTri_c::ReadTimeData(long index,VelocityFH *velocityH, char* err
 			 curr_uvals[j*fNumNodes+i]=0.;
 			 if (curr_vvals[j*fNumNodes+i]==fill_value)
 			 curr_vvals[j*fNumNodes+i]=0.;*/
-			if (curr_uvals[j*numVelsAtDepthLevel+i]==0.||curr_vvals[j*numVelsAtDepthLevel+i]==0.)
-				curr_uvals[j*numVelsAtDepthLevel+i] = curr_vvals[j*numVelsAtDepthLevel+i] = 1e-06;
 			if (curr_uvals[j*numVelsAtDepthLevel+i]==fill_value)
 				curr_uvals[j*numVelsAtDepthLevel+i]=0.;
 			if (curr_vvals[j*numVelsAtDepthLevel+i]==fill_value)
-- 
2.43.0


From 7359481cde71321157d7738ea5824edc9b72ba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:20 +0000
Subject: [PATCH 118/146] fix: triangles beyond the line of a boundary side
 were not found in non-convex meshes

---
 py_gnome/lib_gnome/DagTreeIO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/DagTreeIO.cpp b/py_gnome/lib_gnome/DagTreeIO.cpp
index e89e5f5..41d5ee1 100644
--- a/py_gnome/lib_gnome/DagTreeIO.cpp
+++ b/py_gnome/lib_gnome/DagTreeIO.cpp
@@ -657,7 +657,7 @@ long WhatTriIsPtIn(DAGHdl treeH,TopologyHdl topH, LongPointHdl ptsH,LongPoint pt
 			if(triRight == -1)
 			{
 				thirdPoint = (*longH)[thirdPointIndex];
-				i=-8;
+				i = (*treeH)[i].branchRight;	// there may be other triangles beyond the line of a boundary
 				goto checkTriPts;	
 				//return -1;
 			}
-- 
2.43.0


From e43edab7cfe2f6a894107ed3d555d7729b6ee7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:20 +0000
Subject: [PATCH 119/146] fix: gridded data asked for after its end and then
 before its start (or the reverse) used the wrong record

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 35bb039..457ccb0 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -443,7 +443,7 @@ Boolean TimeGridVel_c::CheckInterval(long &timeDataInterval, const Seconds& mode
 		}
 		if (fAllowExtrapolationInTime &&
 			fEndData.timeIndex == UNASSIGNEDINDEX &&
-			!(fStartData.timeIndex == UNASSIGNEDINDEX))	// way to recognize last interval is set
+			fStartData.timeIndex == 0)	// way to recognize that the first time is set
 		{
 			//check if time > last model time in all files
 			//timeDataInterval = 1;
@@ -466,7 +466,7 @@ Boolean TimeGridVel_c::CheckInterval(long &timeDataInterval, const Seconds& mode
 
 		if (fAllowExtrapolationInTime &&
 			fEndData.timeIndex == UNASSIGNEDINDEX &&
-			!(fStartData.timeIndex == UNASSIGNEDINDEX))	// way to recognize last interval is set
+			fStartData.timeIndex == numTimes - 1)	// way to recognize last interval is set
 		{
 			//check if time > last model time in all files
 			return true;
-- 
2.43.0


From 39887cbe929c9aaf1718886a78c5df29fe40e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:20 +0000
Subject: [PATCH 120/146] fix: wind outside a curvilinear grid was an
 uninitialised velocity

---
 py_gnome/lib_gnome/TimeGridWind_c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/TimeGridWind_c.cpp b/py_gnome/lib_gnome/TimeGridWind_c.cpp
index d3762e1..ee55d0f 100644
--- a/py_gnome/lib_gnome/TimeGridWind_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridWind_c.cpp
@@ -1003,7 +1003,7 @@ VelocityRec TimeGridWindCurv_c::GetScaledPatValue(const Seconds& model_time, Wor
 	double timeAlpha;
 	long index = -1; 
 	Seconds startTime,endTime;
-	VelocityRec windVelocity;
+	VelocityRec windVelocity = {0.,0.};
 	InterpolationValBilinear interpolationVal;
 	//OSErr err = 0;
 	
-- 
2.43.0


From 2554955efb58c3a6daa76e0d167fbd19cb6838ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:24 +0000
Subject: [PATCH 121/146] fix: elements below the deepest level of a regular
 gridded current read velocities out of bounds

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 457ccb0..6f21ac8 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -1598,6 +1598,8 @@ VelocityRec TimeGridVelRect_c::GetScaledPatValue(const Seconds& model_time, Worl
 	}
 	
 	GetDepthIndices(0,refPoint.z,&depthIndex1,&depthIndex2);
+	if (depthIndex1==UNASSIGNEDINDEX)
+		return scaledPatVelocity;	// no value for this point at its depth
 	if (depthIndex2!=UNASSIGNEDINDEX)
 	{
 		// Calculate the depth weight factor
-- 
2.43.0


From cadde7656dddb8355ac6451b0cc595d96d7c1fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:24 +0000
Subject: [PATCH 122/146] fix: layered curvilinear currents interpolated
 between depths of the wrong levels

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 34 +++++++++++++++-------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 6f21ac8..c4c59a5 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -2128,6 +2128,8 @@ double TimeGridVelRect_c::GetDepthAtIndex(long depthIndex, double totalDepth)
 		Cs_r = INDEXH(fDepthLevelsHdl2,depthIndex);
 		depth = fabs(totalDepth*(hc*sc_r+totalDepth*Cs_r))/(totalDepth+hc);
 	}
+	else if (fVar.gridType == MULTILAYER)
+		depth = INDEXH(fDepthLevelsHdl,depthIndex);	// already a depth
 	else
 		depth = INDEXH(fDepthLevelsHdl,depthIndex)*totalDepth; // times totalDepth
 	
@@ -2758,8 +2760,8 @@ VelocityRec TimeGridVelCurv_c::GetInterpolatedValue(const Seconds& model_time, I
 		{
 			if (pt1depthIndex2!=-1) 
 			{
-				topDepth = INDEXH(fDepthsH,pt1depthIndex1);	
-				bottomDepth = INDEXH(fDepthsH,pt1depthIndex2);
+				topDepth = GetDepthAtIndex(pt1depthIndex1,totalDepth);	
+				bottomDepth = GetDepthAtIndex(pt1depthIndex2,totalDepth);
 				depthAlpha = (bottomDepth - depth)/(double)(bottomDepth - topDepth);
 				pt1interp.u = depthAlpha*(interpolationVal.alpha1*(INDEXH(fStartData.dataHdl,ptIndex1+pt1depthIndex1*fNumRows*fNumCols).u))
 				+ (1-depthAlpha)*(interpolationVal.alpha1*(INDEXH(fStartData.dataHdl,ptIndex1+pt1depthIndex2*fNumRows*fNumCols).u));
@@ -2777,8 +2779,8 @@ VelocityRec TimeGridVelCurv_c::GetInterpolatedValue(const Seconds& model_time, I
 		{
 			if (pt2depthIndex2!=-1) 
 			{
-				topDepth = INDEXH(fDepthsH,pt2depthIndex1);	
-				bottomDepth = INDEXH(fDepthsH,pt2depthIndex2);
+				topDepth = GetDepthAtIndex(pt2depthIndex1,totalDepth);	
+				bottomDepth = GetDepthAtIndex(pt2depthIndex2,totalDepth);
 				depthAlpha = (bottomDepth - depth)/(double)(bottomDepth - topDepth);
 				pt2interp.u = depthAlpha*(interpolationVal.alpha2*(INDEXH(fStartData.dataHdl,ptIndex2+pt2depthIndex1*fNumRows*fNumCols).u))
 				+ (1-depthAlpha)*(interpolationVal.alpha2*(INDEXH(fStartData.dataHdl,ptIndex2+pt2depthIndex2*fNumRows*fNumCols).u));
@@ -2796,8 +2798,8 @@ VelocityRec TimeGridVelCurv_c::GetInterpolatedValue(const Seconds& model_time, I
 		{
 			if (pt3depthIndex2!=-1) 
 			{
-				topDepth = INDEXH(fDepthsH,pt3depthIndex1);	
-				bottomDepth = INDEXH(fDepthsH,pt3depthIndex2);
+				topDepth = GetDepthAtIndex(pt3depthIndex1,totalDepth);	
+				bottomDepth = GetDepthAtIndex(pt3depthIndex2,totalDepth);
 				depthAlpha = (bottomDepth - depth)/(double)(bottomDepth - topDepth);
 				pt3interp.u = depthAlpha*(interpolationVal.alpha3*(INDEXH(fStartData.dataHdl,ptIndex3+pt3depthIndex1*fNumRows*fNumCols).u))
 				+ (1-depthAlpha)*(interpolationVal.alpha3*(INDEXH(fStartData.dataHdl,ptIndex3+pt3depthIndex2*fNumRows*fNumCols).u));
@@ -2814,8 +2816,8 @@ VelocityRec TimeGridVelCurv_c::GetInterpolatedValue(const Seconds& model_time, I
 		{
 			if (pt4depthIndex2!=-1) 
 			{
-				topDepth = INDEXH(fDepthsH,pt4depthIndex1);	
-				bottomDepth = INDEXH(fDepthsH,pt4depthIndex2);
+				topDepth = GetDepthAtIndex(pt4depthIndex1,totalDepth);	
+				bottomDepth = GetDepthAtIndex(pt4depthIndex2,totalDepth);
 				depthAlpha = (bottomDepth - depth)/(double)(bottomDepth - topDepth);
 				pt4interp.u = depthAlpha*(interpolationVal.alpha4*(INDEXH(fStartData.dataHdl,ptIndex4+pt4depthIndex1*fNumRows*fNumCols).u))
 				+ (1-depthAlpha)*(interpolationVal.alpha4*(INDEXH(fStartData.dataHdl,ptIndex4+pt4depthIndex2*fNumRows*fNumCols).u));
@@ -2857,8 +2859,8 @@ VelocityRec TimeGridVelCurv_c::GetInterpolatedValue(const Seconds& model_time, I
 		{
 			if (pt1depthIndex2!=-1) 
 			{
-				topDepth = INDEXH(fDepthsH,pt1depthIndex1);	
-				bottomDepth = INDEXH(fDepthsH,pt1depthIndex2);
+				topDepth = GetDepthAtIndex(pt1depthIndex1,totalDepth);	
+				bottomDepth = GetDepthAtIndex(pt1depthIndex2,totalDepth);
 				depthAlpha = (bottomDepth - depth)/(double)(bottomDepth - topDepth);
 				pt1interp.u = depthAlpha*(interpolationVal.alpha1*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex1+pt1depthIndex1*fNumRows*fNumCols).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex1+pt1depthIndex1*fNumRows*fNumCols).u))
 				+ (1-depthAlpha)*(interpolationVal.alpha1*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex1+pt1depthIndex2*fNumRows*fNumCols).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex1+pt1depthIndex2*fNumRows*fNumCols).u));
@@ -2876,8 +2878,8 @@ VelocityRec TimeGridVelCurv_c::GetInterpolatedValue(const Seconds& model_time, I
 		{
 			if (pt2depthIndex2!=-1) 
 			{
-				topDepth = INDEXH(fDepthsH,pt2depthIndex1);	
-				bottomDepth = INDEXH(fDepthsH,pt2depthIndex2);
+				topDepth = GetDepthAtIndex(pt2depthIndex1,totalDepth);	
+				bottomDepth = GetDepthAtIndex(pt2depthIndex2,totalDepth);
 				depthAlpha = (bottomDepth - depth)/(double)(bottomDepth - topDepth);
 				pt2interp.u = depthAlpha*(interpolationVal.alpha2*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex2+pt2depthIndex1*fNumRows*fNumCols).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex2+pt2depthIndex1*fNumRows*fNumCols).u))
 				+ (1-depthAlpha)*(interpolationVal.alpha2*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex2+pt2depthIndex2*fNumRows*fNumCols).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex2+pt2depthIndex2*fNumRows*fNumCols).u));
@@ -2895,8 +2897,8 @@ VelocityRec TimeGridVelCurv_c::GetInterpolatedValue(const Seconds& model_time, I
 		{
 			if (pt3depthIndex2!=-1)
 			{
-				topDepth = INDEXH(fDepthsH,pt3depthIndex1);	
-				bottomDepth = INDEXH(fDepthsH,pt3depthIndex2);
+				topDepth = GetDepthAtIndex(pt3depthIndex1,totalDepth);	
+				bottomDepth = GetDepthAtIndex(pt3depthIndex2,totalDepth);
 				depthAlpha = (bottomDepth - depth)/(double)(bottomDepth - topDepth);
 				pt3interp.u = depthAlpha*(interpolationVal.alpha3*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex3+pt3depthIndex1*fNumRows*fNumCols).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex3+pt3depthIndex1*fNumRows*fNumCols).u))
 				+ (1-depthAlpha)*(interpolationVal.alpha3*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex3+pt3depthIndex2*fNumRows*fNumCols).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex3+pt3depthIndex2*fNumRows*fNumCols).u));
@@ -2913,8 +2915,8 @@ VelocityRec TimeGridVelCurv_c::GetInterpolatedValue(const Seconds& model_time, I
 		{
 			if (pt4depthIndex2!=-1)
 			{
-				topDepth = INDEXH(fDepthsH,pt4depthIndex1);	
-				bottomDepth = INDEXH(fDepthsH,pt4depthIndex2);
+				topDepth = GetDepthAtIndex(pt4depthIndex1,totalDepth);	
+				bottomDepth = GetDepthAtIndex(pt4depthIndex2,totalDepth);
 				depthAlpha = (bottomDepth - depth)/(double)(bottomDepth - topDepth);
 				pt4interp.u = depthAlpha*(interpolationVal.alpha4*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex4+pt4depthIndex1*fNumRows*fNumCols).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex4+pt4depthIndex1*fNumRows*fNumCols).u))
 				+ (1-depthAlpha)*(interpolationVal.alpha4*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex4+pt4depthIndex2*fNumRows*fNumCols).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex4+pt4depthIndex2*fNumRows*fNumCols).u));
-- 
2.43.0


From 2eee854d3e141f09c77a3ddf0622fb21f045c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:24 +0000
Subject: [PATCH 123/146] fix: a list of NetCDF current files kept the record
 of one file as that of another

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index c4c59a5..a2c748c 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -1411,6 +1411,7 @@ OSErr TimeGridVel_c::CheckAndScanFile(char *errmsg, const Seconds& model_time)
 		{
 			//if(fTimeHdl) {DisposeHandle((Handle)fTimeHdl); fTimeHdl=0;}
 			DisposeTimeHdl();
+			DisposeAllLoadedData();	// of another file
 			err = ScanFileForTimes((*fInputFilesHdl)[i].pathName,&fTimeHdl);	
 			
 			// code goes here, check that start/end times match
@@ -1495,6 +1496,7 @@ OSErr TimeGridVel_c::CheckAndScanFile(char *errmsg, const Seconds& model_time)
 	{
 		//if(fTimeHdl) {DisposeHandle((Handle)fTimeHdl); fTimeHdl=0;}
 		DisposeTimeHdl();
+		DisposeAllLoadedData();	// of another file
 		err = ScanFileForTimes((*fInputFilesHdl)[numFiles-1].pathName,&fTimeHdl);	
 		
 		// code goes here, check that start/end times match
@@ -1506,6 +1508,7 @@ OSErr TimeGridVel_c::CheckAndScanFile(char *errmsg, const Seconds& model_time)
 	{
 		//if(fTimeHdl) {DisposeHandle((Handle)fTimeHdl); fTimeHdl=0;}
 		DisposeTimeHdl();
+		DisposeAllLoadedData();	// of another file
 		err = ScanFileForTimes((*fInputFilesHdl)[0].pathName,&fTimeHdl);	
 		
 		// code goes here, check that start/end times match
-- 
2.43.0


From 8c58c6af1b57f739620351b8fdb3169292ad0126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:36 +0000
Subject: [PATCH 124/146] fix: long or short path lines in a list of NetCDF
 files overran the path variables

---
 py_gnome/lib_gnome/Replacements.cpp  |  2 +-
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/Replacements.cpp b/py_gnome/lib_gnome/Replacements.cpp
index 8becd97..b9c872f 100644
--- a/py_gnome/lib_gnome/Replacements.cpp
+++ b/py_gnome/lib_gnome/Replacements.cpp
@@ -340,7 +340,7 @@ void ResolvePathFromInputFile(char *pathOfTheInputFile, char *pathToResolve) //
 	string dir, file;
 	SplitPathIntoDirAndFile(inputPath, dir, file);
 
-	if (ResolvePath(dir, linkedFile)) {
+	if (ResolvePath(dir, linkedFile) && linkedFile.size() < kMaxNameLen) {
 		strcpy(pathToResolve, linkedFile.c_str());
 	}
 
diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index a2c748c..6ccda34 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -80,6 +80,9 @@ Boolean IsNetCDFPathsFile (char *path, Boolean *isNetCDFPathsFile, char *fileNam
 	if (strncmpnocase(strLine, key.c_str(), key.size()) != 0)
 		return false;
 
+	if (strlen(strLine + key.size()) >= kMaxNameLen)
+		return false;	// too long for the path variable
+
 	strcpy(fileNamesPath, path); // transfer the input path to this output variable
 	
 	strcpy(path, strLine + key.size()); // this is overwriting the input variable (see NOTE above)
@@ -556,7 +559,14 @@ OSErr TimeGridVel_c::ReadInputFileNames(char *fileNamesPath)
 		NthLineInTextNonOptimized(*fileBufH, (line)++, s, 1024);
 		RemoveLeadingAndTrailingWhiteSpace(s);
 
-		strcpy((*inputFilesHdl)[i].pathName, s + strlen("[FILE] "));
+		if (strncmpnocase(s, "[FILE]", strlen("[FILE]")) != 0 ||
+			strlen(s + strlen("[FILE]")) >= kMaxNameLen)
+		{
+			err = -2;
+			goto done;
+		}
+
+		strcpy((*inputFilesHdl)[i].pathName, s + strlen("[FILE]"));
 		RemoveLeadingAndTrailingWhiteSpace((*inputFilesHdl)[i].pathName);
 		ResolvePathFromInputFile(fileNamesPath, (*inputFilesHdl)[i].pathName); // JLM 6/8/10
 
-- 
2.43.0


From 736b2c09f22f2fab799028c8e4404f75bba9e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:36 +0000
Subject: [PATCH 125/146] fix: long words in a NetCDF time unit overran the
 variables they are read into

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp  | 16 ++++++++--------
 py_gnome/lib_gnome/TimeGridWind_c.cpp |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 6ccda34..753b99a 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -629,7 +629,7 @@ OSErr TimeGridVel_c::ReadInputFileNames(char *fileNamesPath)
 				StringSubstitute(timeUnits, 'T', ' ');
 				StringSubstitute(timeUnits, 'Z', ' ');
 				
-				numScanned = sscanf(timeUnits, "%s %s %hd %hd %hd %hd %hd %hd",
+				numScanned = sscanf(timeUnits, "%23s %9s %hd %hd %hd %hd %hd %hd",
 									unitStr, junk, &time.year, &time.month, &time.day,
 									&time.hour, &time.minute, &time.second) ;
 				if (numScanned == 5) {
@@ -804,7 +804,7 @@ OSErr TimeGridVelRect_c::TextRead(const char *path, const char *topFilePath)
 		StringSubstitute(timeUnits, 'T', ' ');
 		StringSubstitute(timeUnits, 'Z', ' ');
 		
-		numScanned=sscanf(timeUnits, "%s %s %hd %hd %hd %hd %hd %hd",
+		numScanned=sscanf(timeUnits, "%23s %9s %hd %hd %hd %hd %hd %hd",
 						  unitStr, junk, &time.year, &time.month, &time.day,
 						  &time.hour, &time.minute, &time.second) ;
 		if (numScanned==5)	
@@ -1898,7 +1898,7 @@ OSErr TimeGridVel_c::GetFileStartTime(Seconds *startTime)
 		StringSubstitute(timeUnits, 'T', ' ');
 		StringSubstitute(timeUnits, 'Z', ' ');
 		
-		numScanned = sscanf(timeUnits, "%s %s %hd %hd %hd %hd %hd %hd",
+		numScanned = sscanf(timeUnits, "%23s %9s %hd %hd %hd %hd %hd %hd",
 							unitStr, junk, &time.year, &time.month, &time.day,
 							&time.hour, &time.minute, &time.second) ;
 		if (numScanned == 5) {
@@ -2020,7 +2020,7 @@ OSErr TimeGridVel_c::GetFileEndTime(Seconds *endTime)
 		StringSubstitute(timeUnits, 'T', ' ');
 		StringSubstitute(timeUnits, 'Z', ' ');
 		
-		numScanned = sscanf(timeUnits, "%s %s %hd %hd %hd %hd %hd %hd",
+		numScanned = sscanf(timeUnits, "%23s %9s %hd %hd %hd %hd %hd %hd",
 							unitStr, junk, &time.year, &time.month, &time.day,
 							&time.hour, &time.minute, &time.second) ;
 		if (numScanned == 5) {
@@ -3399,7 +3399,7 @@ OSErr TimeGridVelCurv_c::TextRead(const char *path, const char *topFilePath)
 		StringSubstitute(timeUnits, 'T', ' ');
 		StringSubstitute(timeUnits, 'Z', ' ');
 		
-		numScanned=sscanf(timeUnits, "%s %s %hd %hd %hd %hd %hd %hd",
+		numScanned=sscanf(timeUnits, "%23s %9s %hd %hd %hd %hd %hd %hd",
 						  unitStr, junk, &time.year, &time.month, &time.day,
 						  &time.hour, &time.minute, &time.second) ;
 		if (numScanned==5 || numScanned==4)	
@@ -9166,7 +9166,7 @@ OSErr TimeGridVelTri_c::TextRead(const char *path, const char *topFilePath)
 		
 		if (bIsCycleMover)
 		{
-			numScanned=sscanf(timeUnits, "%s %s %s %s",
+			numScanned=sscanf(timeUnits, "%23s %9s %9s %9s",
 							  unitStr, junk, junk2, junk3) ;
 			if (numScanned<4) // really only care about 1	
 			{ err = -1; TechError("TimeGridVelTri_c::TextRead()", "sscanf() == 4", 0); goto done; }
@@ -9174,7 +9174,7 @@ OSErr TimeGridVelTri_c::TextRead(const char *path, const char *topFilePath)
 		else 
 		{
 
-			numScanned = sscanf(timeUnits, "%s %s %hd %hd %hd %hd %hd %hd",
+			numScanned = sscanf(timeUnits, "%23s %9s %hd %hd %hd %hd %hd %hd",
 								unitStr, junk, &time.year, &time.month, &time.day,
 								&time.hour, &time.minute, &time.second);
 			if (numScanned == 5) {
@@ -11509,7 +11509,7 @@ OSErr ScanFileForTimes(char *path,Seconds ***timeH)
 		StringSubstitute(timeUnits, 'T', ' ');
 		StringSubstitute(timeUnits, 'Z', ' ');
 
-		numScanned=sscanf(timeUnits, "%s %s %hd %hd %hd %hd %hd %hd",
+		numScanned=sscanf(timeUnits, "%23s %9s %hd %hd %hd %hd %hd %hd",
 						  unitStr, junk, &time.year, &time.month, &time.day,
 						  &time.hour, &time.minute, &time.second) ;
 		if (numScanned==5)
diff --git a/py_gnome/lib_gnome/TimeGridWind_c.cpp b/py_gnome/lib_gnome/TimeGridWind_c.cpp
index ee55d0f..20cb23d 100644
--- a/py_gnome/lib_gnome/TimeGridWind_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridWind_c.cpp
@@ -259,7 +259,7 @@ OSErr TimeGridWindRect_c::TextRead(const char *path, const char *topFilePath)
 		StringSubstitute(timeUnits, 'T', ' ');
 		StringSubstitute(timeUnits, 'Z', ' ');
 		
-		numScanned=sscanf(timeUnits, "%s %s %hd %hd %hd %hd %hd %hd",
+		numScanned=sscanf(timeUnits, "%23s %9s %hd %hd %hd %hd %hd %hd",
 						  unitStr, junk, &time.year, &time.month, &time.day,
 						  &time.hour, &time.minute, &time.second) ;
 		if (numScanned==5)	
@@ -1175,7 +1175,7 @@ OSErr TimeGridWindCurv_c::TextRead(const char *path, const char *topFilePath) //
 		StringSubstitute(timeUnits, 'T', ' ');
 		StringSubstitute(timeUnits, 'Z', ' ');
 		
-		numScanned = sscanf(timeUnits, "%s %s %hd %hd %hd %hd %hd %hd",
+		numScanned = sscanf(timeUnits, "%23s %9s %hd %hd %hd %hd %hd %hd",
 							unitStr, junk, &time.year, &time.month, &time.day,
 							&time.hour, &time.minute, &time.second);
 		if (numScanned == 5) {
-- 
2.43.0


From 03186c903ac08963a9550eae5d97c46c4ed9499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:36 +0000
Subject: [PATCH 126/146] fix: paths of gridded mover files longer than 255
 characters overran the path variables

---
 py_gnome/lib_gnome/CurrentCycleMover_c.cpp | 3 +++
 py_gnome/lib_gnome/GridCurrentMover_c.cpp  | 3 +++
 py_gnome/lib_gnome/GridWindMover_c.cpp     | 3 +++
 py_gnome/lib_gnome/IceMover_c.cpp          | 3 +++
 py_gnome/lib_gnome/IceWindMover_c.cpp      | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
index fa6fd44..ae85a9f 100644
--- a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
+++ b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
@@ -296,6 +296,9 @@ OSErr CurrentCycleMover_c::TextRead(char *path, char *topFilePath)
 
 	memset(fileNamesPath, 0, 256);
 	memset(filePath, 0, 256);
+	if (strlen(path) >= sizeof(filePath))
+		return -1;	// too long for the path variables
+
 	strcpy(filePath,path);	// this gets altered in IsNetCDFPathsFile, eventually change that function
 
 	// code goes here, check if IsTideCurCyleMover...
diff --git a/py_gnome/lib_gnome/GridCurrentMover_c.cpp b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
index 2a1a5b1..92fdeab 100644
--- a/py_gnome/lib_gnome/GridCurrentMover_c.cpp
+++ b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
@@ -412,6 +412,9 @@ OSErr GridCurrentMover_c::TextRead(char *path, char *topFilePath)
 
 	memset(fileNamesPath, 0, 256);
 	memset(filePath, 0, 256);
+	if (strlen(path) >= sizeof(filePath))
+		return -1;	// too long for the path variables
+
 	strcpy(filePath,path);	// this gets altered in IsNetCDFPathsFile, eventually change that function
 
 	//  NetCDF is a binary file format, so we will continue to just pass in a path.
diff --git a/py_gnome/lib_gnome/GridWindMover_c.cpp b/py_gnome/lib_gnome/GridWindMover_c.cpp
index c37483d..a64f4c6 100644
--- a/py_gnome/lib_gnome/GridWindMover_c.cpp
+++ b/py_gnome/lib_gnome/GridWindMover_c.cpp
@@ -230,6 +230,9 @@ OSErr GridWindMover_c::TextRead(char *path, char *topFilePath)
 	memset(fileNamesPath, 0, 256);
 	memset(filePath, 0, 256);
 
+	if (strlen(path) >= sizeof(filePath))
+		return -1;	// too long for the path variables
+
 	// this gets altered in IsNetCDFPathsFile, eventually change that function
 	strcpy(filePath, path);
 
diff --git a/py_gnome/lib_gnome/IceMover_c.cpp b/py_gnome/lib_gnome/IceMover_c.cpp
index 3ae51cd..928a4b1 100644
--- a/py_gnome/lib_gnome/IceMover_c.cpp
+++ b/py_gnome/lib_gnome/IceMover_c.cpp
@@ -311,6 +311,9 @@ OSErr IceMover_c::TextRead(char *path, char *topFilePath)
 
 	memset(fileNamesPath, 0, 256);
 	memset(filePath, 0, 256);
+	if (strlen(path) >= sizeof(filePath))
+		return -1;	// too long for the path variables
+
 	strcpy(filePath,path);	// this gets altered in IsNetCDFPathsFile, eventually change that function
 
 	//  NetCDF is a binary file format, so we will continue to just pass in a path.
diff --git a/py_gnome/lib_gnome/IceWindMover_c.cpp b/py_gnome/lib_gnome/IceWindMover_c.cpp
index fce393f..d2e6e28 100644
--- a/py_gnome/lib_gnome/IceWindMover_c.cpp
+++ b/py_gnome/lib_gnome/IceWindMover_c.cpp
@@ -264,6 +264,9 @@ OSErr IceWindMover_c::TextRead(char *path, char *topFilePath)
 
 	memset(fileNamesPath, 0, 256);
 	memset(filePath, 0, 256);
+	if (strlen(path) >= sizeof(filePath))
+		return -1;	// too long for the path variables
+
 	strcpy(filePath,path);	// this gets altered in IsNetCDFPathsFile, eventually change that function
 
 	//  NetCDF is a binary file format, so we will continue to just pass in a path.
-- 
2.43.0


From 7fa864d570812fcba02e150cfc884aa78ad94c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:12 +0000
Subject: [PATCH 127/146] fix: the uncertainty of a gridded wind never started
 in backward runs

---
 py_gnome/lib_gnome/GridWindMover_c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/GridWindMover_c.cpp b/py_gnome/lib_gnome/GridWindMover_c.cpp
index a64f4c6..5b2325d 100644
--- a/py_gnome/lib_gnome/GridWindMover_c.cpp
+++ b/py_gnome/lib_gnome/GridWindMover_c.cpp
@@ -93,7 +93,7 @@ OSErr GridWindMover_c::PrepareForModelStep(const Seconds& model_time,
 	if (uncertain) {
 		// so uncertainty starts at time zero + uncertain_time_delay,
 		// rather than a time step later
-		Seconds elapsed_time = model_time + time_step - fModelStartTime;
+		Seconds elapsed_time = fabs(model_time + time_step - fModelStartTime);
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 
-- 
2.43.0


From 461cc3f73f118e6fa33d43d73723e09cedf933b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:32 +0000
Subject: [PATCH 128/146] fix: a ComponentMover without a wind went on using
 its previous one

---
 py_gnome/gnome/cy_gnome/cy_component_mover.pyx | 6 ++++++
 py_gnome/gnome/movers/c_current_movers.py      | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/py_gnome/gnome/cy_gnome/cy_component_mover.pyx b/py_gnome/gnome/cy_gnome/cy_component_mover.pyx
index 7f55fbd..a0b912b 100644
--- a/py_gnome/gnome/cy_gnome/cy_component_mover.pyx
+++ b/py_gnome/gnome/cy_gnome/cy_component_mover.pyx
@@ -268,6 +268,12 @@ cdef class CyComponentMover(CyCurrentMover):
         self.component.SetTimeFile(ossm.time_dep)
         #self.cats.bTimeFileActive = True   # What is this?
         return True
+
+    def unset_ossm(self):
+        """
+        Undoes set_ossm: the mover is left without a wind
+        """
+        self.component.SetTimeFile(NULL)
             
     def get_move(self,
                  model_time,
diff --git a/py_gnome/gnome/movers/c_current_movers.py b/py_gnome/gnome/movers/c_current_movers.py
index 21ae5e4..d72d389 100644
--- a/py_gnome/gnome/movers/c_current_movers.py
+++ b/py_gnome/gnome/movers/c_current_movers.py
@@ -1402,6 +1402,8 @@ class ComponentMover(CurrentMoversBase):
     @wind.setter
     def wind(self, wind_obj):
         if not isinstance(wind_obj, Wind):
+            # the native mover must not go on using the previous wind
+            self.mover.unset_ossm()
             self._wind = None
             return
 
-- 
2.43.0


From 4a7411a2f4903e64e70387977e19df14b2e2a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:01 +0000
Subject: [PATCH 129/146] fix: the minimum of an ice-aware wind holds for its
 speed, not its components

---
 py_gnome/gnome/environment/environment_objects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/environment_objects.py b/py_gnome/gnome/environment/environment_objects.py
index c904e1d..9b54a3e 100644
--- a/py_gnome/gnome/environment/environment_objects.py
+++ b/py_gnome/gnome/environment/environment_objects.py
@@ -944,7 +944,7 @@ class IceAwareWind(GridWind):
         return iaw
 
 
-    def at(self, points, time, *, units=None, extrapolate=None, min_val=0, **kwargs):
+    def at(self, points, time, *, units=None, extrapolate=None, min_val=0, coord_sys='uv', **kwargs):
         """
         :param min_val: Minimum value for wind speed. If computed wind speed is less than this
                         value, it will be set to this value.
@@ -957,8 +957,11 @@ class IceAwareWind(GridWind):
         wind_v = super(IceAwareWind, self).at(points, time,
                                               units=units,
                                               extrapolate=extrapolate,
+                                              coord_sys=coord_sys,
                                               **kwargs)
-        wind_v[wind_v < min_val] = min_val
+        if coord_sys == 'r':
+            # only a speed has a minimum: components may be negative
+            wind_v = np.maximum(wind_v, min_val)
         #assert len(cctn.shape) == 2
 
         if np.any(cctn >= 0.2):
-- 
2.43.0


From 4bb222e31eb0f49f0cba325063fc6ac3e3ba76cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:01 +0000
Subject: [PATCH 130/146] fix: ice slows an ice-aware wind and does not turn it

---
 py_gnome/gnome/environment/environment_objects.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/environment/environment_objects.py b/py_gnome/gnome/environment/environment_objects.py
index 9b54a3e..2d401b1 100644
--- a/py_gnome/gnome/environment/environment_objects.py
+++ b/py_gnome/gnome/environment/environment_objects.py
@@ -975,12 +975,14 @@ class IceAwareWind(GridWind):
             ice_vel_factor[interp_mask] = ((ice_vel_factor[interp_mask] - 0.2) * 10) / 6
 
             vels = wind_v.copy()
-            vels[ice_mask.reshape(-1)] = 0
-            #vels[vels_mask] = 0
 
             # scale winds from 100-0% depending on ice coverage
             # 100% wind up to 0.2 coverage, 0% wind at >0.8 coverage
-            vels[:] = vels[:] * (1 - ice_vel_factor)
+            # (ice does not turn the wind)
+            if coord_sys == 'r-theta':
+                vels[:, :1] = vels[:, :1] * (1 - ice_vel_factor)
+            elif coord_sys != 'theta':
+                vels[:] = vels[:] * (1 - ice_vel_factor)
 
             return vels
         else:
-- 
2.43.0


From 0ecae38f638b9d52d9bc4ca79892bf012cac336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:01 +0000
Subject: [PATCH 131/146] fix: weatherers ask an ice-aware wind for its speed
 with the minimum by name

---
 py_gnome/gnome/weatherers/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/core.py b/py_gnome/gnome/weatherers/core.py
index 2df1976..cc599c8 100644
--- a/py_gnome/gnome/weatherers/core.py
+++ b/py_gnome/gnome/weatherers/core.py
@@ -110,7 +110,7 @@ class Weatherer(Process):
             Wrapper for the weatherers so they can get wind speeds
         '''
         if hasattr(self.wind,'ice_concentration'):
-            retval = self.wind.at(points, model_time, min_val, coord_sys=coord_sys).reshape(-1)
+            retval = self.wind.at(points, model_time, min_val=min_val, coord_sys=coord_sys).reshape(-1)
         else:
             retval = self.wind.at(points, model_time, coord_sys=coord_sys).reshape(-1)
             retval[retval < min_val] = min_val
-- 
2.43.0


From b7d3051ade2948b8da4c88c94d570e1bf48e9c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:01 +0000
Subject: [PATCH 132/146] fix: daylight saving time of a tide ends on the first
 Sunday of November

---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 9115043..601ff04 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -332,7 +332,7 @@ Boolean ShioTimeValue_c::DaylightSavingTimeInEffect(DateTimeRec *dateStdTime)
 				else
 				{	// not Sunday
 					short nextSundayDay = dateStdTime->day - dateStdTime->dayOfWeek + 8;
-					if(nextSundayDay > 14) return false; // next Sunday is next month, so we are after the magic Sunday
+					if(nextSundayDay > 7) return false; // next Sunday is past the first week, so we are after the magic Sunday
 					else return true;// next Sunday is this month, so we are before the magic Sunday
 				}
 		}
-- 
2.43.0


From 1c523dac91272270cde9f82c6824c129cd7584cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:43 +0000
Subject: [PATCH 133/146] fix: longitude of the second corner is compared with
 longitudes in curvilinear interpolation

---
 py_gnome/lib_gnome/TriGridVel_c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/TriGridVel_c.cpp b/py_gnome/lib_gnome/TriGridVel_c.cpp
index e118f54..9f316d1 100644
--- a/py_gnome/lib_gnome/TriGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TriGridVel_c.cpp
@@ -247,7 +247,7 @@ InterpolationValBilinear TriGridVel_c::GetBilinearInterpolationValues(WorldPoint
 	smallest_lon = vertex1.h;
 	if (vertex2.h > largest_lon)
 		largest_lon = vertex2.h;
-	if (vertex2.h < smallest_lat)
+	if (vertex2.h < smallest_lon)
 		smallest_lon = vertex2.h;
 	if (vertex3.h > largest_lon)
 		largest_lon = vertex3.h;
-- 
2.43.0


From 5f470677633b11fcbbf59aa87589f184c770635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:44 +0000
Subject: [PATCH 134/146] fix: among ice the IceMover moves with the velocity
 of the ice, not with that of the water

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 32 ++++++++++++++--------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 753b99a..7433029 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -7803,17 +7803,17 @@ VelocityRec TimeGridVelIce_c::GetInterpolatedValue(const Seconds& model_time, In
 		(fEndData.timeIndex == UNASSIGNEDINDEX && model_time > ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime) ||
 		(fEndData.timeIndex == UNASSIGNEDINDEX && model_time < ((*fTimeHdl)[fStartData.timeIndex] + fTimeShift) && fAllowExtrapolationInTime))
 	{
-		pt1interp.u = interpolationVal.alpha1*(INDEXH(fStartData.dataHdl,ptIndex1).u); 
-		pt1interp.v = interpolationVal.alpha1*(INDEXH(fStartData.dataHdl,ptIndex1).v); 
+		pt1interp.u = interpolationVal.alpha1*(INDEXH(fStartDataIce.dataHdl,ptIndex1).u); 
+		pt1interp.v = interpolationVal.alpha1*(INDEXH(fStartDataIce.dataHdl,ptIndex1).v); 
 		
-		pt2interp.u = interpolationVal.alpha2*(INDEXH(fStartData.dataHdl,ptIndex2).u); 
-		pt2interp.v = interpolationVal.alpha2*(INDEXH(fStartData.dataHdl,ptIndex2).v);
+		pt2interp.u = interpolationVal.alpha2*(INDEXH(fStartDataIce.dataHdl,ptIndex2).u); 
+		pt2interp.v = interpolationVal.alpha2*(INDEXH(fStartDataIce.dataHdl,ptIndex2).v);
 		
-		pt3interp.u = interpolationVal.alpha3*(INDEXH(fStartData.dataHdl,ptIndex3).u); 
-		pt3interp.v = interpolationVal.alpha3*(INDEXH(fStartData.dataHdl,ptIndex3).v); 
+		pt3interp.u = interpolationVal.alpha3*(INDEXH(fStartDataIce.dataHdl,ptIndex3).u); 
+		pt3interp.v = interpolationVal.alpha3*(INDEXH(fStartDataIce.dataHdl,ptIndex3).v); 
 
-		pt4interp.u = interpolationVal.alpha4*(INDEXH(fStartData.dataHdl,ptIndex4).u); 
-		pt4interp.v = interpolationVal.alpha4*(INDEXH(fStartData.dataHdl,ptIndex4).v); 
+		pt4interp.u = interpolationVal.alpha4*(INDEXH(fStartDataIce.dataHdl,ptIndex4).u); 
+		pt4interp.v = interpolationVal.alpha4*(INDEXH(fStartDataIce.dataHdl,ptIndex4).v); 
 	}
 	
 	else // time varying current 
@@ -7839,17 +7839,17 @@ VelocityRec TimeGridVelIce_c::GetInterpolatedValue(const Seconds& model_time, In
 		else if (fTimeAlpha!=-1)
 			timeAlpha = fTimeAlpha;
 
-		pt1interp.u = interpolationVal.alpha1*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex1).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex1).u); 
-		pt1interp.v = interpolationVal.alpha1*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex1).v + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex1).v); 
+		pt1interp.u = interpolationVal.alpha1*(timeAlpha*INDEXH(fStartDataIce.dataHdl,ptIndex1).u + (1-timeAlpha)*INDEXH(fEndDataIce.dataHdl,ptIndex1).u); 
+		pt1interp.v = interpolationVal.alpha1*(timeAlpha*INDEXH(fStartDataIce.dataHdl,ptIndex1).v + (1-timeAlpha)*INDEXH(fEndDataIce.dataHdl,ptIndex1).v); 
 		
-		pt2interp.u = interpolationVal.alpha2*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex2).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex2).u); 
-		pt2interp.v = interpolationVal.alpha2*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex2).v + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex2).v); 
+		pt2interp.u = interpolationVal.alpha2*(timeAlpha*INDEXH(fStartDataIce.dataHdl,ptIndex2).u + (1-timeAlpha)*INDEXH(fEndDataIce.dataHdl,ptIndex2).u); 
+		pt2interp.v = interpolationVal.alpha2*(timeAlpha*INDEXH(fStartDataIce.dataHdl,ptIndex2).v + (1-timeAlpha)*INDEXH(fEndDataIce.dataHdl,ptIndex2).v); 
 		
-		pt3interp.u = interpolationVal.alpha3*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex3).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex3).u); 
-		pt3interp.v = interpolationVal.alpha3*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex3).v + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex3).v); 
+		pt3interp.u = interpolationVal.alpha3*(timeAlpha*INDEXH(fStartDataIce.dataHdl,ptIndex3).u + (1-timeAlpha)*INDEXH(fEndDataIce.dataHdl,ptIndex3).u); 
+		pt3interp.v = interpolationVal.alpha3*(timeAlpha*INDEXH(fStartDataIce.dataHdl,ptIndex3).v + (1-timeAlpha)*INDEXH(fEndDataIce.dataHdl,ptIndex3).v); 
 
-		pt4interp.u = interpolationVal.alpha4*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex4).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex4).u); 
-		pt4interp.v = interpolationVal.alpha4*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex4).v + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex4).v); 
+		pt4interp.u = interpolationVal.alpha4*(timeAlpha*INDEXH(fStartDataIce.dataHdl,ptIndex4).u + (1-timeAlpha)*INDEXH(fEndDataIce.dataHdl,ptIndex4).u); 
+		pt4interp.v = interpolationVal.alpha4*(timeAlpha*INDEXH(fStartDataIce.dataHdl,ptIndex4).v + (1-timeAlpha)*INDEXH(fEndDataIce.dataHdl,ptIndex4).v); 
 	}
 	scaledPatVelocity.u = pt1interp.u + pt2interp.u + pt3interp.u + pt4interp.u;
 	scaledPatVelocity.v = pt1interp.v + pt2interp.v + pt3interp.v + pt4interp.v;
-- 
2.43.0


From c5c7714ea45315761074ec664ff76f740d653238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:44 +0000
Subject: [PATCH 135/146] fix: an ice wind on nodes reads the ice cover of the
 place it is asked for

---
 py_gnome/lib_gnome/TimeGridWind_c.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridWind_c.cpp b/py_gnome/lib_gnome/TimeGridWind_c.cpp
index 20cb23d..2a018ea 100644
--- a/py_gnome/lib_gnome/TimeGridWind_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridWind_c.cpp
@@ -3589,14 +3589,10 @@ double TimeGridWindIce_c::GetDataField(const Seconds& model_time, WorldPoint3D r
 	//float totalDepth; 
 	Seconds startTime,endTime;
 	double iceDataValue = 0.;
-	//InterpolationVal interpolationVal;
+	InterpolationVal interpolationVal;
 	//OSErr err = 0;
 	
 	if (fGrid) 
-		// for now just use the u,v at left and bottom midpoints of grid box as velocity over entire gridbox
-		index = (dynamic_cast<TTriGridVel*>(fGrid))->GetRectIndexFromTriIndex(refPoint.p,fVerdatToNetCDFH,fNumCols+1);// curvilinear grid
-	
-	/*if (fGrid) 
 	{
 		if (bVelocitiesOnNodes)
 		{
@@ -3610,7 +3606,7 @@ double TimeGridWindIce_c::GetDataField(const Seconds& model_time, WorldPoint3D r
 		}
 		else // for now just use the u,v at left and bottom midpoints of grid box as velocity over entire gridbox
 			index = (dynamic_cast<TTriGridVel*>(fGrid))->GetRectIndexFromTriIndex(refPoint.p,fVerdatToNetCDFH,fNumCols+1);// curvilinear grid
-	}*/
+	}
 	if (index < 0) return iceDataValue;
 	
 	//totalDepth = GetTotalDepth(refPoint.p,index);	// may want to know depth relative to ice thickness...
-- 
2.43.0


From 1daef2795de89568a191a2addcee31b9950b4ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:44 +0000
Subject: [PATCH 136/146] fix: a list of ice files kept the record of one file
 as that of another

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp  | 8 +++++++-
 py_gnome/lib_gnome/TimeGridWind_c.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 7433029..caab7f1 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -7352,6 +7352,8 @@ OSErr TimeGridVelIce_c::CheckAndScanFile(char *errmsg, const Seconds& model_time
 		{
 			//if(fTimeHdl) {DisposeHandle((Handle)fTimeHdl); fTimeHdl=0;}
 			DisposeTimeHdl();
+			DisposeLoadedStartData();	// of another file
+			DisposeLoadedEndData();
 			err = ScanFileForTimes((*fInputFilesHdl)[i].pathName,&fTimeHdl);	
 			
 			// code goes here, check that start/end times match
@@ -7412,7 +7414,7 @@ OSErr TimeGridVelIce_c::CheckAndScanFile(char *errmsg, const Seconds& model_time
 		if (i>0 && (lastEndTime<time && time<startTime))
 		{
 			fOverLapStartTime = (*fInputFilesHdl)[i-1].endTime;	// last entry in previous file
-			DisposeLoadedData(&fStartData);
+			DisposeLoadedStartData();
 			if (fOverLapStartTime==testTime)	// shift end time data to start time data
 			{
 				//fStartData = fEndData;
@@ -7460,6 +7462,8 @@ OSErr TimeGridVelIce_c::CheckAndScanFile(char *errmsg, const Seconds& model_time
 	{
 		//if(fTimeHdl) {DisposeHandle((Handle)fTimeHdl); fTimeHdl=0;}
 		DisposeTimeHdl();
+		DisposeLoadedStartData();	// of another file
+		DisposeLoadedEndData();
 		err = ScanFileForTimes((*fInputFilesHdl)[numFiles-1].pathName,&fTimeHdl);	
 		
 		// code goes here, check that start/end times match
@@ -7471,6 +7475,8 @@ OSErr TimeGridVelIce_c::CheckAndScanFile(char *errmsg, const Seconds& model_time
 	{
 		//if(fTimeHdl) {DisposeHandle((Handle)fTimeHdl); fTimeHdl=0;}
 		DisposeTimeHdl();
+		DisposeLoadedStartData();	// of another file
+		DisposeLoadedEndData();
 		err = ScanFileForTimes((*fInputFilesHdl)[0].pathName,&fTimeHdl);	
 		
 		// code goes here, check that start/end times match
diff --git a/py_gnome/lib_gnome/TimeGridWind_c.cpp b/py_gnome/lib_gnome/TimeGridWind_c.cpp
index 2a018ea..f2875e4 100644
--- a/py_gnome/lib_gnome/TimeGridWind_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridWind_c.cpp
@@ -3252,6 +3252,8 @@ OSErr TimeGridWindIce_c::CheckAndScanFile(char *errmsg, const Seconds& model_tim
 		{
 			//if(fTimeHdl) {DisposeHandle((Handle)fTimeHdl); fTimeHdl=0;}
 			DisposeTimeHdl();
+			DisposeLoadedStartData();	// of another file
+			DisposeLoadedEndData();
 			err = ScanFileForTimes((*fInputFilesHdl)[i].pathName,&fTimeHdl);	
 			
 			// code goes here, check that start/end times match
@@ -3312,7 +3314,7 @@ OSErr TimeGridWindIce_c::CheckAndScanFile(char *errmsg, const Seconds& model_tim
 		if (i>0 && (lastEndTime<time && time<startTime))
 		{
 			fOverLapStartTime = (*fInputFilesHdl)[i-1].endTime;	// last entry in previous file
-			DisposeLoadedData(&fStartData);
+			DisposeLoadedStartData();
 			if (fOverLapStartTime==testTime)	// shift end time data to start time data
 			{
 				//fStartData = fEndData;
@@ -3360,6 +3362,8 @@ OSErr TimeGridWindIce_c::CheckAndScanFile(char *errmsg, const Seconds& model_tim
 	{
 		//if(fTimeHdl) {DisposeHandle((Handle)fTimeHdl); fTimeHdl=0;}
 		DisposeTimeHdl();
+		DisposeLoadedStartData();	// of another file
+		DisposeLoadedEndData();
 		err = ScanFileForTimes((*fInputFilesHdl)[numFiles-1].pathName,&fTimeHdl);	
 		
 		// code goes here, check that start/end times match
@@ -3371,6 +3375,8 @@ OSErr TimeGridWindIce_c::CheckAndScanFile(char *errmsg, const Seconds& model_tim
 	{
 		//if(fTimeHdl) {DisposeHandle((Handle)fTimeHdl); fTimeHdl=0;}
 		DisposeTimeHdl();
+		DisposeLoadedStartData();	// of another file
+		DisposeLoadedEndData();
 		err = ScanFileForTimes((*fInputFilesHdl)[0].pathName,&fTimeHdl);	
 		
 		// code goes here, check that start/end times match
-- 
2.43.0


From 99cdc6d081c6b41d1ee20007a4b42f52b0fa681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:58 +0000
Subject: [PATCH 137/146] fix: uncertain spills follow changes made before the
 first step

A spill that was changed after it was added to a model with uncertainty on
kept its old settings in the uncertain set until the next rewind: the two
sets released different elements. The copies are now refreshed when a run is
set up, as they are on rewind.
---
 py_gnome/gnome/model.py           |  2 ++
 py_gnome/gnome/spill_container.py | 14 +++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 8a18516..0ce26dd 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -857,6 +857,8 @@ class Model(GnomeId):
         self._order_weatherers()
 
         # Step 3: Compile array_types and run setup on spills
+        # the spills may have been changed since they were added
+        self.spills.refresh_uncertain()
         array_types = dict()
 
         # setup basic array types. non_weathering is subset of weathering
diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index 0f6afe5..453c02e 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -1118,9 +1118,17 @@ class SpillContainerPair(SpillContainerPairData):
 
         if self.uncertain:
             self._u_spill_container.rewind()
-            if self._spill_container.spills != self._u_spill_container.spills:
-                self._u_spill_container = \
-                    self._spill_container.uncertain_copy()
+
+        self.refresh_uncertain()
+
+    def refresh_uncertain(self):
+        """
+        make the uncertain spills copies of the forecast spills again, if the
+        forecast spills were changed after they were copied
+        """
+        if (self.uncertain and
+                self._spill_container.spills != self._u_spill_container.spills):
+            self._u_spill_container = self._spill_container.uncertain_copy()
 
     def __repr__(self):
         'unambiguous repr'
-- 
2.43.0


From ae08d72a1a9373ce8aac6218a4ab50b33be7d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:14 +0000
Subject: [PATCH 138/146] fix: what a ROC skimmer or burn takes is taken from
 the elements

ROC Skim and Burn booked the oil they took but never wrote the masses back
to the spill container. When only part of the elements was floating the oil
stayed in the elements as well, and the view they left behind was written
over by the next weatherer.
---
 py_gnome/gnome/weatherers/roc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/weatherers/roc.py b/py_gnome/gnome/weatherers/roc.py
index c66fa63..1ce5126 100644
--- a/py_gnome/gnome/weatherers/roc.py
+++ b/py_gnome/gnome/weatherers/roc.py
@@ -2047,6 +2047,8 @@ class Burn(Response):
                 self.logger.debug('{0} amount burned for {1}: {2}'
                                   .format(self._pid, substance.name, burned))
 
+        sc.update_from_fatedataview()
+
 
 class SkimUnitsSchema(MappingSchema):
     storage = SchemaNode(String(),
@@ -2454,6 +2456,8 @@ class Skim(Response):
 
                 platform_balance['num_fills'] += self._ts_num_fills
 
+        sc.update_from_fatedataview()
+
     def _getRecoveryEfficiency(self):
         # scaffolding method will eventually include logic for calculating
         # recovery efficiency based on wind and oil viscosity.
-- 
2.43.0


From 72c410aa8a675b4227e57a313972334ef2ce1b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:51 +0000
Subject: [PATCH 139/146] fix: a ROC spraying system does not leave a stale
 view behind

Disperse changes the masses and fates in the spill container itself; the
view kept from another response system then had arrays of another length
and the next weatherer failed with a ValueError.
---
 py_gnome/gnome/weatherers/roc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_gnome/gnome/weatherers/roc.py b/py_gnome/gnome/weatherers/roc.py
index 1ce5126..a3825e5 100644
--- a/py_gnome/gnome/weatherers/roc.py
+++ b/py_gnome/gnome/weatherers/roc.py
@@ -1627,6 +1627,9 @@ class Disperse(Response):
 
             sc['fate_status'][idxs] = new_status
 
+            # the container itself was changed, not a view of it
+            sc.reset_fate_dataview()
+
             self.oil_treated_this_timestep = 0
             self.disp_sprayed_this_timestep = 0
 
-- 
2.43.0


From 05d8f8bfb055ce6bf0d6bf5aaf9d8b92e02983a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:51 +0000
Subject: [PATCH 140/146] fix: ROC skimmers and burns start over when the model
 is rewound

A skimmer rewound on its way to offload went on with that trip and took oil
before it was on scene; a burn kept the rate of the earlier run.
---
 py_gnome/gnome/weatherers/roc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/weatherers/roc.py b/py_gnome/gnome/weatherers/roc.py
index a3825e5..5161322 100644
--- a/py_gnome/gnome/weatherers/roc.py
+++ b/py_gnome/gnome/weatherers/roc.py
@@ -1786,6 +1786,8 @@ class Burn(Response):
         self._is_boom_full = False
 
         self._time_burning = 0
+        self._burn_time = None
+        self._burn_rate = None
 
     def prepare_for_model_step(self, sc, time_step, model_time):
         '''
@@ -2186,6 +2188,8 @@ class Skim(Response):
                                                    'state': []}
 
         self._is_collecting = True
+        self._is_transiting = False
+        self._is_offloading = False
 
     def prepare_for_model_step(self, sc, time_step, model_time):
         if (self._is_active(model_time, time_step) or
-- 
2.43.0


From 3cf2deef9b06a9f0498d9b73c614a349371d6337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:07 +0000
Subject: [PATCH 141/146] fix: the search for a current pattern stays within
 the times of the file

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index caab7f1..19d752a 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -372,7 +372,7 @@ Boolean TimeGridVel_c::CheckInterval(long &timeDataInterval, const Seconds& mode
 				}
 			}
 			
-			for (i=0;i<numTimes;i++) 
+			for (i=0;i<numTimes-1;i++) 
 			{	// find the time interval
 				if (time>=(*fTimeHdl)[i] && time<=(*fTimeHdl)[i+1])
 				{
-- 
2.43.0


From 19e4901f2286480bf15723c3f4443308b913909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:08 +0000
Subject: [PATCH 142/146] fix: at the strongest flood a cycle mover uses the
 first pattern

---
 py_gnome/lib_gnome/CurrentCycleMover_c.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
index ae85a9f..8fdd8a4 100644
--- a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
+++ b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
@@ -123,6 +123,11 @@ OSErr CurrentCycleMover_c::PrepareForModelStep(const Seconds &model_time, const
 		{
 			offset = ebbFloodType+4 - fPatternStartPoint;
 		}
+		if (offset == 0 && fraction == 0)
+		{	// start of the cycle is the end of the last one (0, 0 is for no tide)
+			offset = 3;
+			fraction = 1;
+		}
 	}
 	timeGrid -> SetTimeCycleInfo(fraction,offset);
 	return GridCurrentMover_c::PrepareForModelStep(model_time, time_step, uncertain, numLESets, LESetsSizesList);
-- 
2.43.0


From d5d1793b8a88a40834c2fb436dfa8376f36b358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:08 +0000
Subject: [PATCH 143/146] fix: at a turn of the tide a cycle mover interpolates
 between patterns

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 19d752a..5f62515 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -392,7 +392,7 @@ Boolean TimeGridVel_c::CheckInterval(long &timeDataInterval, const Seconds& mode
 		index1 = floor(numSegmentsPerFloodEbb * (fFraction + fOffset));	// round, floor?
 		index2 = ceil(numSegmentsPerFloodEbb * (fFraction + fOffset));	// round, floor?
 		timeDataInterval = index2;	// first interval is between 0 and 1, and so on
-		if (fFraction==0) timeDataInterval++;
+		if (fFraction==0 && index1==index2) timeDataInterval++;
 		// do we need this?
 		fTimeAlpha = timeDataInterval-numSegmentsPerFloodEbb * (fFraction + fOffset);
 		// check if index2==numTimes, then need to cycle back to zero
-- 
2.43.0


From 74932adba97e7a5d575ebf259c8352630d407560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:08 +0000
Subject: [PATCH 144/146] fix: the stage of a tide before its first known one
 advances with time

---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 601ff04..c6cb355 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -1276,8 +1276,8 @@ OSErr ShioTimeValue_c::GetLocationInTideCycle(const Seconds& model_time, short *
 			{
 				if (ebbFloodData1.type>0) *ebbFloodType = ebbFloodData1.type - 1;
 				else *ebbFloodType = 3;
-				*fraction = (float)(ebbFloodData1.time - time)/ (float)(ebbFloodData2.time - ebbFloodData1.time);	// a fudge for now
-				if (*fraction>1) *fraction=1;
+				*fraction = 1 - (float)(ebbFloodData1.time - time)/ (float)(ebbFloodData2.time - ebbFloodData1.time);	// a fudge for now
+				if (*fraction<0) *fraction=0;
 				return 0;
 			}
 		}
@@ -1384,8 +1384,8 @@ OSErr ShioTimeValue_c::GetLocationInTideCycle(const Seconds& model_time, short *
 			{
 				if (type1>0) *ebbFloodType = type1 - 1;
 				else *ebbFloodType = 3;
-				*fraction = (float)(derivTime - time)/ (float)(derivTime2 - derivTime);	// a fudge for now
-				if (*fraction>1) *fraction=1;
+				*fraction = 1 - (float)(derivTime - time)/ (float)(derivTime2 - derivTime);	// a fudge for now
+				if (*fraction<0) *fraction=0;
 				return 0;
 			}
 		}
-- 
2.43.0


From 01047be75a6e69be13b1757b3eab851d9eb89ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:08 +0000
Subject: [PATCH 145/146] fix: the stage of a tide is known after its computed
 range

---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index c6cb355..4fc06d3 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -1262,6 +1262,13 @@ OSErr ShioTimeValue_c::GetLocationInTideCycle(const Seconds& model_time, short *
 	if (this->fStationType == 'C')
 	{
 		numValues = this->GetNumEbbFloodValues();
+		if (numValues < 2 || this->GetNumValues() == 0 || time > INDEXH(fEbbFloodDataHdl, numValues-1).time || time < INDEXH(this->timeValues, 0).time)
+		{	// not in the computed range
+			VelocityRec value;
+			this->SetTimeValueHandle(nil);
+			if (this->GetTimeValue(time, &value)) return -1;
+			numValues = this->GetNumEbbFloodValues();
+		}
 		for (i=0; i<numValues-1; i++)
 		{
 			ebbFloodData1 = INDEXH(fEbbFloodDataHdl, i);
-- 
2.43.0


From e073e1116e023c2291abdeeee17f1648270de679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:08 +0000
Subject: [PATCH 146/146] fix: the stages of a tide of heights follow one
 another

---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 40 ++++++++------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 4fc06d3..e2dd373 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -1308,19 +1308,20 @@ OSErr ShioTimeValue_c::GetLocationInTideCycle(const Seconds& model_time, short *
 		// this needs work
 		Seconds derivTime,derivTime2;
 		short type1,type2;
-		numValues = 2*(this->GetNumHighLowValues())-1;
+		VelocityRec value;
+		if (this->GetTimeValue(time, &value)) return -1;	// computes the highs and lows around it if need be
+		numValues = 2*(this->GetNumHighLowValues()-1);
 		for (i=0; i<numValues; i++) // show only max/mins, converted from high/lows
 		{
 			HighLowData startHighLowData,endHighLowData/*,nextHighLowData*/;
 			//double maxMinDeriv;
-			Seconds midTime,midTime2;
+			Seconds midTime;
 			long index = floor(i/2.);
 
 			startHighLowData = INDEXH(fHighLowDataHdl, index);
 			endHighLowData = INDEXH(fHighLowDataHdl, index+1);
 
 			midTime = (endHighLowData.time - startHighLowData.time)/2 + startHighLowData.time;
-			midTime2 = (endHighLowData.time - startHighLowData.time)/2 + endHighLowData.time;
 
 			switch(startHighLowData.type)
 			{
@@ -1349,32 +1350,15 @@ OSErr ShioTimeValue_c::GetLocationInTideCycle(const Seconds& model_time, short *
 					}
 					break;
 			}
-			switch(endHighLowData.type)
+			if (fmod(i,2.) == 0)
+			{	// halfway to the next high or low
+				derivTime2 = midTime;
+				type2 = (startHighLowData.type == LowTide) ? MaxFlood : MaxEbb;
+			}
+			else
 			{
-				case	LowTide:
-					if (fmod(i,2.) == 0)
-					{
-						derivTime2 = endHighLowData.time;
-						type2 = MinBeforeFlood;
-					}
-					else
-					{
-						derivTime2 = midTime2;
-						type2 = MaxFlood;
-					}
-					break;
-				case	HighTide:
-					if (fmod(i,2.) == 0)
-					{
-						derivTime2 = endHighLowData.time;
-						type2 = MinBeforeEbb;
-					}
-					else
-					{
-						derivTime2 = midTime2;
-						type2 = MaxEbb;
-					}
-					break;
+				derivTime2 = endHighLowData.time;
+				type2 = (endHighLowData.type == LowTide) ? MinBeforeFlood : MinBeforeEbb;
 			}
 			//maxMinDeriv = GetDeriv(startHighLowData.time, startHighLowData.height,
 				//endHighLowData.time, endHighLowData.height, derivTime) * fScaleFactor / KNOTSTOMETERSPERSEC;
-- 
2.43.0

