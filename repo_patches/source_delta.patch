From bddc10339b3ee3bb61dd42159e66d2ba5ba0b41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 01/32] fix: extract zero contours without the
 ContourSet.collections attribute removed from matplotlib

Every DGA run died in default_giwk_checks on current matplotlib.
---
 src/dga/brillouin_zone.py |  7 +++----
 src/dga/plotting.py       | 12 ++++++------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index d6024a1..6bef62d 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -56,12 +56,11 @@ def find_zeros(mat):
     ind_y = np.arange(mat.shape[1])
 
     cs1 = plt.contour(ind_x, ind_y, mat.T.real, cmap='RdBu', levels=[0, ])
-    paths = cs1.collections[0].get_paths()
+    segments = cs1.allsegs[0]
     plt.close()
-    paths = np.atleast_1d(paths)
     vertices = []
-    for path in paths:
-        vertices.extend(path.vertices)
+    for segment in segments:
+        vertices.extend(segment)
     vertices = np.array(vertices, dtype=int)
     return vertices
 
diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 676257d..cda3a2b 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -43,15 +43,15 @@ def get_zero_contour(data):
     indy = np.arange(0, np.shape(data)[0])
     fig1 = plt.figure()
     cs1 = plt.contour(indx, indy, data, cmap='RdBu', levels=[0, ])
-    path = cs1.collections[0].get_paths()
+    segments = cs1.allsegs[0]
     plt.close(fig1)
-    for i in range(len(path)):
+    for i, segment in enumerate(segments):
         if (i == 0):
-            indices_x = np.array(np.round(path[i].vertices[:, 0], 0).astype(int))
-            indices_y = np.array(np.round(path[i].vertices[:, 1], 0).astype(int))
+            indices_x = np.array(np.round(segment[:, 0], 0).astype(int))
+            indices_y = np.array(np.round(segment[:, 1], 0).astype(int))
         else:
-            indices_x = np.concatenate((indices_x, np.array(np.round(path[i].vertices[:, 0], 0).astype(int))), axis=0)
-            indices_y = np.concatenate((indices_y, np.array(np.round(path[i].vertices[:, 1], 0).astype(int))), axis=0)
+            indices_x = np.concatenate((indices_x, np.array(np.round(segment[:, 0], 0).astype(int))), axis=0)
+            indices_y = np.concatenate((indices_y, np.array(np.round(segment[:, 1], 0).astype(int))), axis=0)
     return indices_x, indices_y
 
 
-- 
2.43.0


From 09dcd941011476e195c303cf931efe6c3f09dee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 02/32] fix: skip sanity plots at bosonic frequencies outside
 the box instead of aborting the run

---
 src/dga/plotting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index cda3a2b..cf5a5b3 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -59,8 +59,8 @@ def default_g2_plots(g2_dens, g2_magn, output_dir):
     ''' Default plots for the two-particle Green's function'''
     g2_dens.plot(0, pdir=output_dir, name='G2_dens')
     g2_magn.plot(0, pdir=output_dir, name='G2_magn')
-    g2_magn.plot(10, pdir=output_dir, name='G2_magn')
-    g2_magn.plot(-10, pdir=output_dir, name='G2_magn')
+    for iwn in (10, -10):
+        if iwn in g2_magn.wn: g2_magn.plot(iwn, pdir=output_dir, name='G2_magn')
 
 
 def default_gchi_plots(gchi_dens, gchi_magn, output_dir):
@@ -74,9 +74,9 @@ def default_gamma_plots(gamma_dens, gamma_magn, output_dir, box_sizes, beta):
     niv_core = box_sizes.niv_core
     gamma_dens.plot(0, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
     gamma_magn.plot(0, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_magn.plot(10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_magn.plot(-10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_dens.plot(10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
+    for iwn in (10, -10):
+        if iwn in gamma_magn.wn: gamma_magn.plot(iwn, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
+    if 10 in gamma_dens.wn: gamma_dens.plot(10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
 
 
 def plot_along_ind(mat, indizes, step_size=1, figsize=ps.FIGSIZE, cmap='rainbow', verbose=False, pdir='./', do_save=True
-- 
2.43.0


From 519184c25108288b9b59b3ae49f9585015d5d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 03/32] fix: look up colour maps with plt.get_cmap,
 matplotlib.cm.get_cmap no longer exists

---
 src/dga/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index cf5a5b3..7e857f6 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -91,7 +91,7 @@ def plot_along_ind(mat, indizes, step_size=1, figsize=ps.FIGSIZE, cmap='rainbow'
     ind_v = np.logical_and(vn >= niv_plot_min, vn <= niv_plot)
 
     n_plots = len(indizes[::step_size])
-    line_colors = plt.cm.get_cmap(cmap)(np.linspace(0, 1, n_plots))
+    line_colors = plt.get_cmap(cmap)(np.linspace(0, 1, n_plots))
     lines = []
 
     fig, axes = plt.subplots(nrows=1, ncols=2, figsize=figsize)
@@ -139,7 +139,7 @@ def plot_kx_ky(mat, kx, ky, do_save=True, pdir='./', name='', cmap='RdBu', figsi
                  pad=0.05)
     if (scatter is not None):
         for ax in axes:
-            colours = plt.cm.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
+            colours = plt.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
             ax.scatter(scatter[:, 0], scatter[:, 1], marker='o', c=colours)
     plt.tight_layout()
     if (do_save): plt.savefig(pdir + '/' + name + '.png')
@@ -575,7 +575,7 @@ def plot_gap_function_kx_ky(mat, kx, ky, do_save=True, pdir='./', name='', cmap=
                  pad=0.05)
     if (scatter is not None):
         for ax in axes:
-            colours = plt.cm.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
+            colours = plt.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
             ax.scatter(scatter[:, 0], scatter[:, 1], marker='o', c=colours)
     plt.tight_layout()
     if (do_save): plt.savefig(pdir + '/GapFunction_' + name + '.png')
-- 
2.43.0


From d93a0dbf5e1b3a81c0e8cab6c277c5a7dae298fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 04/32] fix: keep the sign of the bosonic frequency when
 collecting F(q,w,v,v') and the optics vertex from the rank files

The group-name pattern dropped the minus sign, so every negative-frequency slice overwrote its positive
partner and the negative half of the saved vertex stayed zero.
---
 src/dga/four_point.py | 4 ++--
 src/dga/optics.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 5704a1a..91c4546 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -326,8 +326,8 @@ def load_vertex_from_rank_files(output_path, name, mpi_size, nq, niw, niv):
             keys = (key for key in file_in.keys() if key.startswith('fq_'))  # the group is still hard-coded!
             for key1 in keys:
                 # extract the q indizes from the group name!
-                irrq = np.array(re.findall(r'\d+', key1), dtype=int)[0]
-                iwn = np.array(re.findall(r'\d+', key1), dtype=int)[1] + niw
+                irrq = np.array(re.findall(r'-?\d+', key1), dtype=int)[0]
+                iwn = np.array(re.findall(r'-?\d+', key1), dtype=int)[1] + niw
                 f1_magn[irrq, iwn, ...] = file_in.file[key1 + '/f1_magn/'][()]
                 f2_dens[irrq, iwn, ...] = file_in.file[key1 + '/f2_dens/'][()]
                 f1_dens[irrq, iwn, ...] = file_in.file[key1 + '/f1_dens/'][()]
diff --git a/src/dga/optics.py b/src/dga/optics.py
index 425876f..f3db645 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -253,8 +253,8 @@ def load_optics_vertex_from_rank_files(output_path, name, mpi_size, nq, optics_c
             keys = (key for key in file_in.keys() if key.startswith('f_'))  # the group is still hard-coded!
             for key1 in keys:
                 # extract the q indizes from the group name!
-                irrq = np.array(re.findall(r'\d+', key1), dtype=int)[0]
-                iwn = np.array(re.findall(r'\d+', key1), dtype=int)[1] + niw_vert
+                irrq = np.array(re.findall(r'-?\d+', key1), dtype=int)[0]
+                iwn = np.array(re.findall(r'-?\d+', key1), dtype=int)[1] + niw_vert
                 f1_magn[irrq, iwn, ...] = file_in.file[key1 + '/f1_magn/'][()]
                 f2_dens[irrq, iwn, ...] = file_in.file[key1 + '/f2_dens/'][()]
                 f1_dens[irrq, iwn, ...] = file_in.file[key1 + '/f1_dens/'][()]
-- 
2.43.0


From a08697bb9642dffc90ed7a8a0be0ef23e22ef364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 05/32] fix: save the three-leg vertex of all momenta, not only
 the slice owned by rank 0

---
 src/dga/dga_main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 81b5971..37cfa6d 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -136,10 +136,6 @@ def main():
     d_cfg.logger.log_memory_usage('chi_lad', chi_lad_dens, n_exists=2)
     d_cfg.logger.log_memory_usage('vrg_q', vrg_q_dens, n_exists=2)
 
-    if (d_cfg.save_vrg and comm.rank == 0):
-        d_cfg.save_data(vrg_q_magn, 'vrg_q_magn')
-        d_cfg.save_data(vrg_q_dens, 'vrg_q_dens')
-
     del gamma_magn, gamma_dens, vrg_magn, vrg_dens
     gc.collect()
     d_cfg.logger.log_cpu_time(task=' Vrg and Chi-ladder completed. ')
@@ -204,6 +200,10 @@ def main():
     vrg_q_dens = mpi_distributor.gather(rank_result=vrg_q_dens)
     vrg_q_magn = mpi_distributor.gather(rank_result=vrg_q_magn)
 
+    if (d_cfg.save_vrg and comm.rank == 0):
+        d_cfg.save_data(vrg_q_magn, 'vrg_q_magn')
+        d_cfg.save_data(vrg_q_dens, 'vrg_q_dens')
+
     d_cfg.logger.log_memory_usage('vrg-q', vrg_q_dens, n_exists=2)
 
     if (comm.rank == 0):
-- 
2.43.0


From b0395895a6bee243055faf7f5695e150a6059e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 06/32] fix: send C-ordered memory in the distributor's
 collectives, other layouts arrived scrambled

---
 src/dga/mpi_aux.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dga/mpi_aux.py b/src/dga/mpi_aux.py
index a7978ff..7cc4669 100644
--- a/src/dga/mpi_aux.py
+++ b/src/dga/mpi_aux.py
@@ -124,7 +124,7 @@ class MpiDistributor():
 
         # The sizes argument needs the total number of elements rather than
         # just the first axis. The type argument is inferred.
-        self.comm.Allgatherv(rank_result, [tot_result, self.sizes * other_dims])
+        self.comm.Allgatherv(np.ascontiguousarray(rank_result), [tot_result, self.sizes * other_dims])
         return tot_result
 
     def gather(self, rank_result=None, root=0):
@@ -132,13 +132,14 @@ class MpiDistributor():
         tot_shape = (self.ntasks,) + rank_result.shape[1:]
         tot_result = np.empty(tot_shape, rank_result.dtype)
         other_dims = np.prod(rank_result.shape[1:])
-        self.comm.Gatherv(rank_result, [tot_result, self.sizes * other_dims], root=root)
+        self.comm.Gatherv(np.ascontiguousarray(rank_result), [tot_result, self.sizes * other_dims], root=root)
         return tot_result
 
     def scatter(self, full_data=None, root=0):
         ''' Scatter full_data among ranks using the first dimension. '''
         if full_data is not None:
             assert isinstance(full_data,np.ndarray), 'full_data must be a numpy array'
+            full_data = np.ascontiguousarray(full_data)  # MPI sends the memory as it is laid out
             rest_shape = np.shape(full_data)[1:]
             data_type = full_data.dtype
         else:
@@ -159,7 +160,7 @@ class MpiDistributor():
 
     def allreduce(self, rank_result=None):
         tot_result = np.zeros(np.shape(rank_result), dtype=rank_result.dtype)
-        self.comm.Allreduce(rank_result, tot_result)
+        self.comm.Allreduce(np.ascontiguousarray(rank_result), tot_result)
         return tot_result
 
 
-- 
2.43.0


From 56fdfbd303dd5b6b686bd115cff2a280e04bd29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 07/32] fix: end the whole MPI job when one rank fails, the
 other ranks waited for it forever

---
 src/dga/dga_main.py    |  1 +
 src/dga/dga_max_ent.py |  1 +
 src/dga/mpi_aux.py     | 21 +++++++++++++++++++++
 3 files changed, 23 insertions(+)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 37cfa6d..8ef37a9 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -39,6 +39,7 @@ from dga import plot_specs
 comm = mpi.COMM_WORLD
 
 
+@mpi_aux.abort_on_error
 def main():
     # --------------------------------------------- CONFIGURATION ----------------------------------------------------------
 
diff --git a/src/dga/dga_max_ent.py b/src/dga/dga_max_ent.py
index 1cf8262..c9c11ef 100644
--- a/src/dga/dga_max_ent.py
+++ b/src/dga/dga_max_ent.py
@@ -27,6 +27,7 @@ if (socket.gethostname() != 'DESKTOP-OEHIPTV'):
     matplotlib.use('agg')  # non GUI backend since VSC has no display
 
 
+@mpi_aux.abort_on_error
 def main(path='./', comm=None):
     print('Starting MaxEnt at:' + path)
     # Define MPI communicator:
diff --git a/src/dga/mpi_aux.py b/src/dga/mpi_aux.py
index 7cc4669..cccfda5 100644
--- a/src/dga/mpi_aux.py
+++ b/src/dga/mpi_aux.py
@@ -6,7 +6,11 @@
 
 # -------------------------------------------- IMPORT MODULES ----------------------------------------------------------
 
+import functools
 import os
+import sys
+import traceback
+
 import numpy as np
 import h5py
 from mpi4py import MPI as mpi
@@ -170,5 +174,22 @@ def create_distributor(ntasks, comm=None, output_path=None, name=''):
         comm = mpi.COMM_WORLD
     return MpiDistributor(ntasks=ntasks, comm=comm, output_path=output_path, name=name)
 
+def abort_on_error(main):
+    ''' Decorator for main routines: an error on one rank ends the whole job, otherwise the other ranks wait forever. '''
+
+    @functools.wraps(main)
+    def wrapper(*args, **kwargs):
+        try:
+            return main(*args, **kwargs)
+        except (Exception, SystemExit):  # pylint: disable=broad-except
+            if mpi.COMM_WORLD.Get_size() == 1: raise
+            traceback.print_exc()
+            sys.stdout.flush()
+            sys.stderr.flush()
+            mpi.COMM_WORLD.Abort(1)
+
+    return wrapper
+
+
 if __name__ == '__main__':
     pass
-- 
2.43.0


From 9beb35f67736adfef5fe80c18f5ed1cf3f9e22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 08/32] fix: write the DMFT potential energy, not a second copy
 of the DGA one, to energies.txt

---
 src/dga/dga_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 8ef37a9..8969f15 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -275,7 +275,7 @@ def main():
         e_kin_dga = giwk_dga.e_kin
         e_kin_dmft = giwk_dmft.e_kin
         e_pot_dga = giwk_dga.e_pot
-        e_pot_dmft = giwk_dga.e_pot
+        e_pot_dmft = giwk_dmft.e_pot
         np.savetxt(d_cfg.output_path + '/energies.txt', [[e_kin_dga, e_kin_dmft, e_pot_dga, e_pot_dmft]],
                    header='kin-dga kin-dmft pot-dga pot-dmft', fmt='%.6f')
 
-- 
2.43.0


From b2787990b5ed4ba5dccf911787abb23e62adac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 09/32] fix: do not plot or continue the optical conductivity
 when no bubble was requested, the run crashed

---
 src/dga/dga_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 8969f15..5d744d0 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -354,7 +354,7 @@ def main():
             d_cfg.optics.save_data(chijj_vert, 'chijj_vert')
         d_cfg.logger.log_event('Optics vertex completed!')
 
-    if comm.rank == 0 and 'optics' in conf_file:
+    if comm.rank == 0 and 'optics' in conf_file and d_cfg.optics.do_bubble:
         # Plot the optical conductivity on matsubara frequencies:
         if chijj_vert is None: chijj_vert = np.zeros_like(chijj_bubble)
 
-- 
2.43.0


From 5d4498a2cb3a5e82938c5e5565bf3c993e2e9750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 10/32] fix: honour keep_fq_optics: false also without an
 optics MaxEnt section

---
 src/dga/dga_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 5d744d0..87cdc14 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -380,7 +380,7 @@ def main():
             d_cfg.optics.save_data(max_ent.w, 'w')
             d_cfg.logger.log_event('MaxEnt for optical conductivity finished.')
 
-            if not d_cfg.keep_fq_optics: d_cfg.optics.clean_data('F_cond')
+    if comm.rank == 0 and d_cfg.optics.do_vertex and not d_cfg.keep_fq_optics: d_cfg.optics.clean_data('F_cond')
 
     # ------------------------------------------------- MAXENT ------------------------------------------------------------
     if ('max_ent' in conf_file):
-- 
2.43.0


From c2fad8e51dbbc82320b2dba9ec0f99c862d5ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 11/32] fix: let errors while opening or closing a rank file
 surface, lost vertex data was read back as zeros

---
 src/dga/mpi_aux.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/dga/mpi_aux.py b/src/dga/mpi_aux.py
index cccfda5..d9a63b0 100644
--- a/src/dga/mpi_aux.py
+++ b/src/dga/mpi_aux.py
@@ -89,16 +89,10 @@ class MpiDistributor():
         return self._my_slice
 
     def open_file(self):
-        try:
-            self.file = h5py.File(self.fname, 'r+')
-        except: # pylint: disable=bare-except
-            pass
+        self.file = h5py.File(self.fname, 'r+')
 
     def close_file(self):
-        try:
-            self.file.close()
-        except: # pylint: disable=bare-except
-            pass
+        self.file.close()  # buffered data is written here, an error must not be lost
 
     def delete_file(self):
         try:
-- 
2.43.0


From 7e91c2e82e739c89728a4ea0015dad79a97109b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 12/32] fix: create the output folder atomically, two jobs
 started at once could share one

---
 src/dga/config.py | 12 ++----------
 src/dga/util.py   | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 5179e25..312cc54 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -119,18 +119,10 @@ class OutputConfig(ConfigBase):
 
     def set_output_path(self, base_name, comm=None):
         ''' comm is for mpi applications '''
+        if (comm is None or comm.rank == 0):
+            self.output_path = util.make_unique_dir(base_name)
         if (comm is not None):
-            if (comm.rank == 0):
-                self.output_path = util.uniquify(base_name)
             self.output_path = comm.bcast(self.output_path, root=0)
-        else:
-            self.output_path = util.uniquify(base_name)
-
-        if (not os.path.exists(self.output_path)):
-            if (comm is not None):
-                if (comm.rank == 0): os.mkdir(self.output_path)
-            else:
-                os.mkdir(self.output_path)
         return self.output_path
 
     def save_data(self, mat, name):
diff --git a/src/dga/util.py b/src/dga/util.py
index 47f2b33..d0ef9e9 100644
--- a/src/dga/util.py
+++ b/src/dga/util.py
@@ -23,3 +23,17 @@ def uniquify(path=None):
         counter += 1
 
     return path + '/'
+
+
+def make_unique_dir(path=None):
+    '''
+        Create a directory with a unique name. Another job may pick the same name at the same time, hence the directory
+        belongs to whoever manages to create it.
+    '''
+    while True:
+        unique_path = uniquify(path)
+        try:
+            os.mkdir(unique_path)
+            return unique_path
+        except FileExistsError:
+            continue
-- 
2.43.0


From 37f4f3dd6face7cf2c7ea5b5289afdf50a4dd536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 13/32] fix: return zeros of the right type for a failed
 continuation, the gathered spectra held uninitialised memory

---
 src/dga/analytic_continuation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 676f088..8658e8c 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -340,12 +340,14 @@ class MaxEnt():
 
     def analytic_continuation(self, mat_list):
         cont_list = []
+        # same type as a successful continuation, ranks may not send different types:
+        dtype = complex if self.kernel_mode == 'freq_fermionic' else np.asarray(mat_list).dtype
         for mat in mat_list:
             try:
                 cont_list.append(self.cont_single_ind(mat))
             except:
                 print('Error in analytic continuation. Setting result to 0.')
-                cont_list.append(np.zeros_like(self.w))  # make sure the code does not hang up when ana_cont fails for one index
+                cont_list.append(np.zeros_like(self.w, dtype=dtype))  # make sure the code does not hang up when ana_cont fails for one index
         return np.array(cont_list)
 
 
-- 
2.43.0


From a7baad3c61fc0a5e0f138edd11a7f67283304d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 14/32] fix: do not treat more self-energy frequencies as core
 than there are, the continuation of small boxes crashed

---
 src/dga/two_point.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 38ce0b9..a97dc64 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -141,11 +141,8 @@ class SelfEnergy():
         asympt = self.get_asympt(niv_asympt=self.niv, n_min=0)
         ind_real = np.argmax(np.abs(self.k_mean().real - asympt.real) < self.err)
         ind_imag = np.argmax(np.abs(self.k_mean().imag - asympt.imag) < self.err)
-        niv_core = max(ind_real, ind_imag)
-        if niv_core < self.niv_core_min:
-            return self.niv_core_min
-        else:
-            return niv_core
+        niv_core = max(ind_real, ind_imag, self.niv_core_min)
+        return min(niv_core, self.niv)  # sigma might contain less than niv_core_min frequencies
 
     def get_siw(self, niv=-1, pi_shift=False):
         if niv == -1:
-- 
2.43.0


From a00072c3e2474cc6712dd03328329f6e5371c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 15/32] fix: create the folders of a continuation atomically,
 two continuation jobs could collide

---
 src/dga/dga_io.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/dga/dga_io.py b/src/dga/dga_io.py
index 77b1f8f..75fb37b 100644
--- a/src/dga/dga_io.py
+++ b/src/dga/dga_io.py
@@ -1,6 +1,5 @@
 ''' Input-Ouput routines for dga'''
 
-import os
 import numpy as np
 import h5py
 
@@ -21,14 +20,9 @@ KNOWNINPUTTYPES = ['EDFermion', 'w2dyn']
 
 def set_output_path(base_name, comm=None):
     ''' comm is for mpi applications '''
-    output_path = util.uniquify(base_name)
-
-    if not os.path.exists(output_path):
-        if comm is not None:
-            if comm.rank == 0: os.mkdir(output_path)
-        else:
-            os.mkdir(output_path)
-    return output_path
+    if comm is None or comm.rank == 0:
+        return util.make_unique_dir(base_name)
+    return util.uniquify(base_name)
 
 
 def create_dmft_ddict(dmft_input, g2_dens: lfp.LocalFourPoint, g2_magn: lfp.LocalFourPoint):
-- 
2.43.0


From eb3e585b8d9f77b260d2136cf67cb5d62529df32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 16/32] fix: close the file of the real-space Hamiltonian,
 write errors were lost

---
 src/dga/wannier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 49b7a48..0ae4071 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -319,6 +319,7 @@ def write_hr_w2k(fname, hr, r_grid, r_weights, orbs):
     for i in range(0, n_r * n_bands ** 2):
         line = '{: 5d}{: 5d}{: 5d}{: 5d}{: 5d}{: 12.6f}{: 12.6f}'.format(*r_grid[i, :], *orbs[i, :], hr[i, 0].real, hr[i, 0].imag)
         file.write(line + '\n')
+    file.close()  # writes the buffered lines, an error must not be lost
 
 
 # pylint: enable=C0209
-- 
2.43.0


From ef01e5b3a16862181f668252dadf2e37e0358ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 17/32] fix: record numbers read from the configuration as
 numbers, eps was recorded as an empty entry

---
 src/dga/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 312cc54..890a604 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -84,7 +84,8 @@ class ConfigBase():
     def as_dict(self, obj=None):
         if obj is None:
             obj = self
-        if not hasattr(obj, "__dict__"):
+        # scalars and maps read from a yaml file have a __dict__ as well
+        if not hasattr(obj, "__dict__") or isinstance(obj, (int, float, str, dict)):
             return obj
         result = {}
         for key, val in obj.__dict__.items():
-- 
2.43.0


From 4a9d020a85736f1bf8d8cf2a129de0452cf21914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 18/32] fix: do not take a read error of the vertex file for
 the last frequency

---
 src/dga/w2dyn_aux_dga.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/dga/w2dyn_aux_dga.py b/src/dga/w2dyn_aux_dga.py
index f7b8042..663ff71 100644
--- a/src/dga/w2dyn_aux_dga.py
+++ b/src/dga/w2dyn_aux_dga.py
@@ -261,16 +261,12 @@ class W2dynG4iwFile:
 
     # ==================================================================================================================
     def read_g2_full(self, ineq=1, channel=None, spinband=1):
-        group_exists = True
         g2 = []
         wn = 0
-        while group_exists:
-            try:
-                g2.append(
-                    self._file[f'/ineq-{ineq:03}/' + channel + f'/{wn:05}/{spinband:05}/value'][()].T)
-                wn += 1
-            except:  # pylint: disable=bare-except
-                group_exists = False
+        while f'/ineq-{ineq:03}/' + channel + f'/{wn:05}/{spinband:05}/value' in self._file:
+            g2.append(
+                self._file[f'/ineq-{ineq:03}/' + channel + f'/{wn:05}/{spinband:05}/value'][()].T)
+            wn += 1
         g2 = np.array(g2)
         return g2
 
-- 
2.43.0


From 68fe2b49f2e816a50e63b81c18641d89d4683290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 19/32] fix: give the symmetrised file its name only when it is
 complete

---
 src/dga/symmetrize.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dga/symmetrize.py b/src/dga/symmetrize.py
index 00ea7ed..d1ec0ab 100644
--- a/src/dga/symmetrize.py
+++ b/src/dga/symmetrize.py
@@ -5,6 +5,7 @@
 '''
 import h5py
 import numpy as np
+import os
 import sys
 from shutil import copyfile
 
@@ -290,12 +291,13 @@ def main(conf):
     get_groups(**conf,conf=conf)
     get_fbox(**conf,conf=conf)
 
-    try:
-      f2=h5py.File(conf['outfile'],'w-')
-    except IOError:
+    if os.path.exists(conf['outfile']):
       print('File already exists.')
       print('Exiting.')
       sys.exit(0)
+    # an interrupted run must not leave an incomplete file under the final name
+    tmpfile='{}.part{}'.format(conf['outfile'],os.getpid())
+    f2=h5py.File(tmpfile,'w')
 
     initialize_output(f1,f2,**conf)
 
@@ -308,6 +310,7 @@ def main(conf):
             for i in symgroups:
                print(index2component_band(conf['Nbands'][ineq],4, i))
     f2.close()
+    os.rename(tmpfile,conf['outfile'])
 
   f1.close()
 
-- 
2.43.0


From 1d4db673f5e5c43c5383b8102897a852ebdc8870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 20/32] fix: bracket the chemical potential on the real axis,
 the minimisation often stopped far from the filling

---
 src/dga/two_point.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index a97dc64..b71f2d2 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -536,6 +536,19 @@ def opt_func(mu, n, swk, w, ek, verbose=False):
 
 
 def adjust_mu_real_f(mu0, n_target, swk, w, ek, verbose=False):
+    def fill_diff(mu):
+        return get_filling_real_f(w, get_gwk(w, swk, ek, mu)) - n_target
+
+    # Walk from mu0 towards the target until it is bracketed (the filling grows with mu):
+    mu_old, diff_old = mu0, fill_diff(mu0)
+    step = -np.sign(diff_old) * (w[-1] - w[0]) / 100
+    for i in range(1, 101):
+        mu_new = mu0 + i * step
+        if diff_old * fill_diff(mu_new) <= 0:
+            return np.array([opt.brentq(fill_diff, mu_old, mu_new)])
+        mu_old = mu_new
+
+    # The filling can not be reached with this spectrum, get as close as possible:
     fit = opt.minimize(opt_func, x0=mu0, args=(n_target, swk, w, ek, verbose))
     return fit.x
 
-- 
2.43.0


From d9acc25d8dfc6cf4a63736f369adfea914fe4b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:40 +0000
Subject: [PATCH 21/32] fix: evaluate the real-frequency bubble at v+w and v-w
 for every mesh, it was wrong or crashed unless equidistant and odd

---
 src/dga/optics.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/dga/optics.py b/src/dga/optics.py
index f3db645..7189b53 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -59,21 +59,25 @@ def vec_get_chijj_bubble_realf(gwk_obj: twop.RealFrequencyGF, hr: wannier.Wannie
     lv_b = hr.get_light_vertex(k_grid, der=der_b)
     w_0_ind = np.argmin(np.abs(gwk_obj.w))
     w_mbub_ind = np.argmin(np.abs(gwk_obj.w - w_max_bub))
-    w_int_ind = len(gwk_obj.w) - w_mbub_ind
-    nu = w_0_ind + w_int_ind
-    nl = w_0_ind - w_int_ind + len(gwk_obj.w) % 2
+    w_min, w_max, w_mbub = gwk_obj.w[0], gwk_obj.w[-1], gwk_obj.w[w_mbub_ind]
+    # v+w and v-w have to stay within the mesh:
+    ind_int = (gwk_obj.w > w_min + w_mbub - 1e-10) & (gwk_obj.w < w_max - w_mbub + 1e-10)
     lv2 = lv_a * lv_b
-    awk = gwk_obj.awk()[..., nl:nu]
-    w_int = gwk_obj.w[nl:nu]
+    awk = gwk_obj.awk()[..., ind_int]
+    w_int = gwk_obj.w[ind_int]
     nf = fermi_function(w_int, beta)[None, None, None, :]
     w_bub = gwk_obj.w[w_0_ind + 1:w_mbub_ind]
+    # v+w and v-w are in general not on the mesh, only if it is equidistant:
+    gwk_interp = interp1d(gwk_obj.w, gwk_obj.gwk(), axis=-1)
 
-    def get_chijj_bubble_realf_iw(i):
+    def get_gwk_at(w_new):
+        return gwk_interp(np.clip(w_new, w_min, w_max))
+
+    def get_chijj_bubble_realf_w(w):
         return -2 * np.mean(
-            lv2 * np.trapz(nf * awk * (gwk_obj.gwk()[..., nl + i:nu + i] + np.conj(gwk_obj.gwk())[..., nl - i:nu - i])
-                           , w_int, axis=-1))
+            lv2 * np.trapz(nf * awk * (get_gwk_at(w_int + w) + np.conj(get_gwk_at(w_int - w))), w_int, axis=-1))
 
-    chi_jj = np.array([get_chijj_bubble_realf_iw(i + 1) for i, _ in enumerate(w_bub)])
+    chi_jj = np.array([get_chijj_bubble_realf_w(w) for w in w_bub])
     return chi_jj, w_bub
 
 
-- 
2.43.0


From 5a9053797dd57103a79409e2a63d7dd8f2769d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 22/32] fix: bracket the chemical potential when the Newton
 search fails, mu=0 was used silently

---
 src/dga/two_point.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index b71f2d2..5273611 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -280,6 +280,26 @@ def root_fun(mu=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0,
 
 # ==================================================================================================================
 
+# ==================================================================================================================
+def bracket_mu(mu0, tol, args, mu_range=1000.):
+    """
+    Root of root_fun, the filling increases with mu: walk from mu0 with growing steps until the target filling is
+    enclosed. Slower than the Newton search, but it does not depend on the slope at mu0.
+    """
+    mu_a, diff_a = np.real(mu0), np.real(root_fun(np.real(mu0), *args))
+    if diff_a == 0:
+        return mu_a
+    step = -0.1 * np.sign(diff_a)
+    while np.abs(mu_a - np.real(mu0)) < mu_range:
+        mu_b = mu_a + step
+        diff_b = np.real(root_fun(mu_b, *args))
+        if diff_a * diff_b <= 0:
+            return opt.brentq(lambda mu: np.real(root_fun(mu, *args)), mu_a, mu_b, xtol=tol)
+        mu_a, diff_a = mu_b, diff_b
+        step = step * 1.5
+    raise ValueError('No chemical potential was found for the target filling.')
+
+
 # ==================================================================================================================
 def update_mu(mu0=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0, smom0=0.0, tol=1e-6, verbose=False):
     """
@@ -296,8 +316,8 @@ def update_mu(mu0=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0
         mu = opt.newton(root_fun, mu, tol=tol,
                         args=(target_filling, iv, hk, siwk, beta, smom0, hloc))
     except RuntimeError:
-        if verbose: print('Root finding for chemical potential failed.')
-        if verbose: print('Using old chemical potential again.')
+        if verbose: print('Newton search for the chemical potential failed, bracketing it instead.')
+        mu = bracket_mu(mu0, tol, (target_filling, iv, hk, siwk, beta, smom0, hloc))
     if np.abs(mu.imag) < 1e-8:
         mu = mu.real
     else:
-- 
2.43.0


From 25976b63194ecc924e5cd45ea7b9b6ab166114a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 23/32] fix: do not swallow errors while the optimal blur width
 is written

---
 src/dga/analytic_continuation.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 8658e8c..537129c 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -450,13 +450,14 @@ def max_ent_loc_bw_range(mat, me_conf: config.MaxEntConfig, name='', out_dir='./
 
     try:
         popt, _ = opt.curve_fit(f=fitfun, xdata=np.log(bw_range), ydata=np.log(chi2), p0=(0., 5., 2., 0.))
-        a, b, c, d = popt
-        a_opt = c - me_conf.bw_fit_position / d
-        bw_opt = np.exp(a_opt)
-        np.savetxt(out_dir + 'bw_opt_' + name + '.txt', [bw_opt, ], delimiter=',', fmt='%.9f', header='bw_opt')
-        plotting.plot_bw_fit(bw_opt=bw_opt, bw=bw_range, chi2=chi2, fits=[np.exp(fitfun(np.log(bw_range), a, b, c, d)), ],
-                             output_path=out_dir, name=f'chi2_bw_{name}')
-
-        return bw_opt
-    except:
+    except Exception:  # the fit may fail, writing its result may not
         return 0.0
+
+    a, b, c, d = popt
+    a_opt = c - me_conf.bw_fit_position / d
+    bw_opt = np.exp(a_opt)
+    np.savetxt(out_dir + 'bw_opt_' + name + '.txt', [bw_opt, ], delimiter=',', fmt='%.9f', header='bw_opt')
+    plotting.plot_bw_fit(bw_opt=bw_opt, bw=bw_range, chi2=chi2, fits=[np.exp(fitfun(np.log(bw_range), a, b, c, d)), ],
+                         output_path=out_dir, name=f'chi2_bw_{name}')
+
+    return bw_opt
-- 
2.43.0


From 3b8bcce794636e218a747c12445230315e8dcdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 24/32] fix: all but the first Eliashberg gap function were not
 solutions, project with the weight of the gap equation

---
 src/dga/eliashberg_equation.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/dga/eliashberg_equation.py b/src/dga/eliashberg_equation.py
index 5375fc4..827b5ce 100644
--- a/src/dga/eliashberg_equation.py
+++ b/src/dga/eliashberg_equation.py
@@ -70,7 +70,9 @@ class EliashberPowerIteration():
             # gep_new = remove_prev_eigenvals(v=gap_new, basis=self.gap, lams=self.lam)
             if self.lam_s is not None:
                 gap_new = gap_new - gap_old * self.lam_s
-            lambda_new = np.sum(np.conj(gap_old) * gap_new) / np.sum(np.conj(gap_old) * gap_old)
+            # The gap equation is hermitian with respect to the weight |gk|^2:
+            weight = np.abs(self.gk) ** 2
+            lambda_new = np.sum(np.conj(gap_old) * weight * gap_new) / np.sum(np.conj(gap_old) * weight * gap_old)
             gap_old = gap_new / lambda_new
 
             if (np.abs(lambda_new - lambda_old) < self.eps or count > self.max_count):
@@ -109,14 +111,11 @@ def proj(v=None, u=None):
     return np.sum(np.conj(u) * v) / np.sum(np.conj(u) * u) * u
 
 
-# pylint: disable=unused-argument
 def proj_eliash(v=None, u=None, gk=None):
-    '''Projection of v onto u.'''
-    # return np.sum(u*np.abs(gk)**2*v)/np.sum(u*np.abs(gk)**2*u) * u
-    return np.sum(np.conj(u) * v) / np.sum(np.conj(u) * u) * u
-
+    '''Projection of v onto u. Solutions of the gap equation are orthogonal with respect to the weight |gk|^2.'''
+    weight = np.abs(gk) ** 2
+    return np.sum(np.conj(u) * weight * v) / np.sum(np.conj(u) * weight * u) * u
 
-# pylint: enable=unused-argument
 
 def get_gap_start(shape=None, k_type=None, v_type=None, k_grid=None):
     gap0 = np.zeros(shape, dtype=complex)
-- 
2.43.0


From 7d67598a3b5c67a5ce8e7643c2f656c4957608a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 25/32] fix: polynomial fits on momentum grids with an odd
 number of points mixed up the momenta

---
 src/dga/dga_io.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dga/dga_io.py b/src/dga/dga_io.py
index 75fb37b..9081d0a 100644
--- a/src/dga/dga_io.py
+++ b/src/dga/dga_io.py
@@ -154,7 +154,8 @@ def dmft_poly_fit(giwk_obj: twop.GreensFunction, d_cfg: config.DgaConfig):
                    header='bandshift gamma Z', fmt='%.6f')
 
 
-def poly_fit(mat_data, beta, k_grid: bz.KGrid, n_fit, order, name='poly_cont', output_path='./'):
+def poly_fit(mat_data, beta, k_grid: bz.KGrid, n_fit, order, name='poly_cont', output_path='./', pi_shift=False):
+    ''' mat_data starts at Gamma like k_grid.irrk_ind; pi_shift: shift the result to have Gamma in the center. '''
     v = mf.vn(beta, mat_data.shape[-1] // 2, pos=True)
 
     re_fs, im_fs, z = a_cont.extract_coeff_on_ind(
@@ -163,6 +164,8 @@ def poly_fit(mat_data, beta, k_grid: bz.KGrid, n_fit, order, name='poly_cont', o
     re_fs = k_grid.map_irrk2fbz(mat=re_fs)
     im_fs = k_grid.map_irrk2fbz(mat=im_fs)
     z = k_grid.map_irrk2fbz(mat=z)
+    if pi_shift:
+        re_fs, im_fs, z = [bz.shift_mat_by_pi(mat) for mat in (re_fs, im_fs, z)]
 
     extrap = {
         're_fs': re_fs,
@@ -246,14 +249,14 @@ def default_giwk_checks(d_cfg: config.DgaConfig, giwk_dga, sigma_dga):
 def dga_poly_fit(d_cfg: config.DgaConfig, sigma_dga, giwk_dga):
     if d_cfg.do_poly_fitting and d_cfg.comm.rank == 0:
         # Extrapolate the self-energy to the Fermi-level via polynomial fit:
-        poly_fit(sigma_dga.get_siw(d_cfg.box.niv_full, pi_shift=True), d_cfg.sys.beta,
+        poly_fit(sigma_dga.get_siw(d_cfg.box.niv_full), d_cfg.sys.beta,
                  d_cfg.lattice.k_grid, d_cfg.n_fit,
-                 d_cfg.o_fit, name='Siwk_poly_cont_', output_path=d_cfg.poly_fit_dir)
+                 d_cfg.o_fit, name='Siwk_poly_cont_', output_path=d_cfg.poly_fit_dir, pi_shift=True)
 
-        poly_fit(giwk_dga.g_full(pi_shift=True), d_cfg.sys.beta, d_cfg.lattice.k_grid, d_cfg.n_fit,
+        poly_fit(giwk_dga.g_full(), d_cfg.sys.beta, d_cfg.lattice.k_grid, d_cfg.n_fit,
                  d_cfg.o_fit,
                  name='Giwk_dga_poly_cont_',
-                 output_path=d_cfg.poly_fit_dir)
+                 output_path=d_cfg.poly_fit_dir, pi_shift=True)
 
         d_cfg.logger.log_cpu_time(task=' Poly-fits ')
 
-- 
2.43.0


From 21a6fb47900412aee242cbef35f906546dd6b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 26/32] fix: symmetrize.py looked for one-particle data under a
 name that w2dynamics does not use and left the unsymmetrised copy under the
 final name

---
 src/dga/symmetrize.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/dga/symmetrize.py b/src/dga/symmetrize.py
index d1ec0ab..3127a20 100644
--- a/src/dga/symmetrize.py
+++ b/src/dga/symmetrize.py
@@ -271,22 +271,25 @@ def main(conf):
   f1=h5py.File(conf['infile'],'r')
 
   if conf['target']=='1freq_f': # we do this completely seperate since we only have to do sume numpy magic
-    copyfile(conf['infile'],conf['outfile'])
-    f2=h5py.File(conf['outfile'],'r+')
+    # an interrupted run must not leave an incomplete file under the final name
+    tmpfile='{}.part{}'.format(conf['outfile'],os.getpid())
+    copyfile(conf['infile'],tmpfile)
+    f2=h5py.File(tmpfile,'r+')
     for ineq in range(conf['nineq']):
-      f2['dmft-last/ineq-{:03}/giw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/giwk_obj'.format(ineq+1)]
-      del f2['dmft-last/ineq-{:03}/giwk_obj'.format(ineq+1)]
-      f2['dmft-last/ineq-{:03}/giwk_obj/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
+      f2['dmft-last/ineq-{:03}/giw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/giw'.format(ineq+1)]
+      del f2['dmft-last/ineq-{:03}/giw'.format(ineq+1)]
+      f2['dmft-last/ineq-{:03}/giw/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
       f2['dmft-last/ineq-{:03}/siw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/siw'.format(ineq+1)]
       del f2['dmft-last/ineq-{:03}/siw'.format(ineq+1)]
       f2['dmft-last/ineq-{:03}/siw/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/siw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
       for band in range(conf['Nbands'][ineq]):
         for symband in conf['sym'][ineq][band]:
-          f2['dmft-last/ineq-{:03}/giwk_obj/value'.format(ineq+1)][band,:,:] += \
+          f2['dmft-last/ineq-{:03}/giw/value'.format(ineq+1)][band,:,:] += \
             np.mean(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)][symband-1,:,:]/float(len(conf['sym'][ineq][band])), axis=0)
           f2['dmft-last/ineq-{:03}/siw/value'.format(ineq+1)][band,:,:] += \
             np.mean(f2['dmft-last/ineq-{:03}/siw_unsymmetrized/value'.format(ineq+1)][symband-1,:,:]/float(len(conf['sym'][ineq][band])), axis=0)
     f2.close()
+    os.rename(tmpfile,conf['outfile'])
   else: # 1freq_b, 2freq, 3freq
     get_groups(**conf,conf=conf)
     get_fbox(**conf,conf=conf)
-- 
2.43.0


From 07f5780e0d0407ef29f85109a82c564d5f587d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 27/32] fix: symmetrize.py read the box sizes from worm-last
 whatever iteration was asked for

---
 src/dga/symmetrize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/symmetrize.py b/src/dga/symmetrize.py
index 3127a20..234e459 100644
--- a/src/dga/symmetrize.py
+++ b/src/dga/symmetrize.py
@@ -121,20 +121,20 @@ def check_sym(**kwargs):
           print('orbital symmetry not consistent!')
           sys.exit()
 
-def get_fbox(infile=None,target=None,**kwargs):
+def get_fbox(infile=None,target=None,worm_group='worm-last',**kwargs):
   conf = kwargs['conf']
   f=h5py.File(infile,'r')
   if target=='1freq_b':
-    n2iwb=f['worm-last/ineq-001/p2iw-worm/00001/value'].shape[0]
+    n2iwb=f['{}/ineq-001/p2iw-worm/00001/value'.format(worm_group)].shape[0]
     print(n2iwb)
     conf['n2iwb']=n2iwb//2
   elif target=='2freq':
-    n3iwf,n3iwb = f['worm-last/ineq-001/p3iw-worm/00001/value'].shape
+    n3iwf,n3iwb = f['{}/ineq-001/p3iw-worm/00001/value'.format(worm_group)].shape
     conf['n3iwf'],conf['n3iwb'] = n3iwf//2,n3iwb//2
     n3iwf,n3iwb=conf['n3iwf'],conf['n3iwb']
   elif target=='3freq':
     # new worm format -- f f b
-    _,n4iwf,n4iwb = f['worm-last/ineq-001/g4iw-worm/00001/value'].shape # always here
+    _,n4iwf,n4iwb = f['{}/ineq-001/g4iw-worm/00001/value'.format(worm_group)].shape # always here
     conf['n4iwf']=n4iwf//2
     conf['n4iwb']=n4iwb//2
     n4iwf,n4iwb=conf['n4iwf'],conf['n4iwb']
-- 
2.43.0


From 2da93b3a5f4251f45b1149a63b2d2ad11dea6fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:49 +0000
Subject: [PATCH 28/32] fix: a list of lattice symmetries, as the configuration
 template documents it, was rejected

---
 src/dga/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 890a604..ae7cdfa 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -246,10 +246,10 @@ class LatticeConfig(ConfigBase):
             pass
         elif (self.symmetries == 'none'):
             self.symmetries = ()
-        elif (isinstance(self.symmetries, tuple)):
+        elif (isinstance(self.symmetries, (tuple, list))):
             for sym in self.symmetries:
                 if (sym not in bz.KNOWN_SYMMETRIES):
-                    NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
+                    raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
         else:
             raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
 
-- 
2.43.0


From ed799cf4f40a8c73385082a6ee10da0e8fcadd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 29/32] fix: niv_asympt was inferred from box sizes of -1
 before the four-point data had set them

---
 src/dga/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index ae7cdfa..a49648c 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -161,7 +161,8 @@ class BoxSizes(ConfigBase):
         if (config_dict is not None):
             self.update_dict(**config_dict)  # forwards parameters from config
 
-        if (self.niv_asympt == -1):
+        # Box sizes of -1 are only known once the four-point data are read, see set_from_lfp:
+        if (self.niv_asympt == -1 and self.niv_core != -1 and self.niw_core != -1):
             self.niv_asympt = self.niv_full + self.niw_core * 2
 
     @property
-- 
2.43.0


From 56f40ff27c2adc082370b3c177315aea37ea5554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 30/32] fix: dga_max_ent used box sizes of -1 from the
 configuration as they stood

---
 src/dga/dga_max_ent.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dga/dga_max_ent.py b/src/dga/dga_max_ent.py
index c9c11ef..ab3cfef 100644
--- a/src/dga/dga_max_ent.py
+++ b/src/dga/dga_max_ent.py
@@ -15,6 +15,7 @@ import matplotlib
 from dga import config
 from dga import loggers
 from dga import dga_io
+from dga import local_four_point as lfp
 from dga import two_point as twop
 from dga import analytic_continuation as a_cont
 from dga import brillouin_zone as bz
@@ -51,6 +52,7 @@ def main(path='./', comm=None):
     ek = d_cfg.lattice.hr.get_ek(d_cfg.lattice.k_grid)
     d_cfg.output_path = path
     d_cfg.set_system_parameter(dmft_input)
+    d_cfg.box.set_from_lfp(lfp.get_g2_from_dmft_input(dmft_input, channel='dens'))  # box sizes that are not in the config
 
     # define k-path objects that might be used later:
     bz_kpath_string_list = ['Gamma-X-M2-Gamma','Gamma-Y-M2-Gamma','Gamma-X-M-Gamma','Gamma-Y-M-Gamma','Gamma-X-M-Y-Gamma']
-- 
2.43.0


From f9b74a9ef6353991e349aed95c521dbb31953e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:40 +0000
Subject: [PATCH 31/32] fix: record the Hamiltonian with all its digits

wannier_hr.dat in the output folder held six decimals, a job repeated from
it differed from the recorded one for hoppings with more digits.
---
 src/dga/wannier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 0ae4071..77b07a9 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -317,7 +317,7 @@ def write_hr_w2k(fname, hr, r_grid, r_weights, orbs):
     orbs = orbs.reshape(n_r * n_bands ** 2, 2).astype(int)
 
     for i in range(0, n_r * n_bands ** 2):
-        line = '{: 5d}{: 5d}{: 5d}{: 5d}{: 5d}{: 12.6f}{: 12.6f}'.format(*r_grid[i, :], *orbs[i, :], hr[i, 0].real, hr[i, 0].imag)
+        line = '{: 5d}{: 5d}{: 5d}{: 5d}{: 5d}{: 22.16f}{: 22.16f}'.format(*r_grid[i, :], *orbs[i, :], hr[i, 0].real, hr[i, 0].imag)
         file.write(line + '\n')
     file.close()  # writes the buffered lines, an error must not be lost
 
-- 
2.43.0


From d7d36c99e7ae710eff629efaff1277422d9a8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:38 +0000
Subject: [PATCH 32/32] fix: continued data have the same type on every rank

With force_preblur the blurred spectrum of complex bosonic data is real,
the zeros of a failed continuation complex; ranks sent different types.
---
 src/dga/analytic_continuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 537129c..7bcc9b7 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -348,7 +348,7 @@ class MaxEnt():
             except:
                 print('Error in analytic continuation. Setting result to 0.')
                 cont_list.append(np.zeros_like(self.w, dtype=dtype))  # make sure the code does not hang up when ana_cont fails for one index
-        return np.array(cont_list)
+        return np.array(cont_list, dtype=dtype)
 
 
 def mpi_ana_cont(mat, me_controller: MaxEnt, mpi_dist: mpi_aux.MpiDistributor, name, logger=None):
-- 
2.43.0

