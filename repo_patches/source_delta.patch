From 17283cccfa629608d393bd034deb5ac746f966e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:45 +0000
Subject: [PATCH 01/22] fix: find near pairs of particles larger than unit size
 in periodic domains

The periodic neighbour search first kept only pairs closer than an absolute
distance that was right for particles of radius 1, and only then scaled by the
mean radius. Pairs of larger particles within the scaled cutoff were lost.
Use the largest particle to set the first distance.
---
 stokesian_dynamics/functions/shared.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index ba09bbf..2355603 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -458,7 +458,9 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
             basis_canonical)
         closer_than_cutoff_pairs = []
         displacements_pairs = np.empty([0, 3])
-        # This lists pairs that are closer than 4 units, regardless of size ratio.
+        # This lists pairs that are closer than the cutoff would be for two of the
+        # largest particles, regardless of size ratio.
+        largest_cutoff = cutoff*np.max(bead_sizes, initial=0)
         for i in range(len(unsheared_positions)):
             sphere_position = unsheared_positions[i]
             sheared_centred_box = np.dot(np.mod(np.dot(unsheared_positions-sphere_position,
@@ -467,10 +469,10 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
                                          sheared_basis_vectors)
             # Shear again
             # Take particles only within a cube of the correct radius:
-            particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= cutoff)
+            particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= largest_cutoff)
             # Take particles only within a sphere of the correct radius:
             particles_in_radius = np.where(
-                np.linalg.norm(sheared_centred_box[particles_in_cube], axis=1) <= cutoff)
+                np.linalg.norm(sheared_centred_box[particles_in_cube], axis=1) <= largest_cutoff)
             particles_in_radius_ids = particles_in_cube[0][particles_in_radius][
                 particles_in_cube[0][particles_in_radius] >= i]
             closer_than_cutoff_pairs += [(i, j) for j in particles_in_radius_ids]
-- 
2.43.0


From cbd55e97ab2a05008d089a77a53ef7ee293855df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:02 +0000
Subject: [PATCH 02/22] fix: load the drag-only resistance scalars only when
 they are asked for

With use_drag_Minfinity on, use_drag_R2Binfinity selected the table with the
full R2Binfinity subtracted, and leaving it off selected the drag-only table.
This is the opposite of what the settings describe.
---
 stokesian_dynamics/resistance_scalars/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/resistance_scalars/data.py b/stokesian_dynamics/resistance_scalars/data.py
index 74fada9..c65a037 100755
--- a/stokesian_dynamics/resistance_scalars/data.py
+++ b/stokesian_dynamics/resistance_scalars/data.py
@@ -23,7 +23,7 @@ lam_range_with_reciprocals.sort()
 
 # The resistance scalars already have R2Binfinity subtracted off. Decide here
 # whether this is with the full R2Binfinity or the drag-only R2Binfinity.
-if not use_drag_Minfinity or (use_drag_Minfinity and use_drag_R2Binfinity):
+if not (use_drag_Minfinity and use_drag_R2Binfinity):
     filename = f'{resistance_scalars_folder}/scalars_general_resistance_d.npy'
 else:
     filename = f'{resistance_scalars_folder}/scalars_general_resistance_d_drag.npy'
-- 
2.43.0


From f0e8d6f1e71e031e77fc610bc3087fc5dad07fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:11 +0000
Subject: [PATCH 03/22] fix: give the drag-only resistance its 6 pi factor

The drag approximation to the inverse of Minfinity was 6 pi smaller than the
inverse of the diagonal of Minfinity, which carries 1/(6 pi mu a). In periodic
domains it also indexed the radii with floats, which raises an IndexError.
---
 .../functions/generate_grand_resistance_matrix.py  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index b7737d2..f9fef01 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -60,7 +60,7 @@ def generate_grand_resistance_matrix(
             element_sizes, element_positions, element_deltax, num_elements,
             num_elements_array, element_type, uv_start, uv_size,
             element_start_count) = posdata_data(posdata)
-        Minfinity_inverse = mu*np.diag(
+        Minfinity_inverse = 6*np.pi*mu*np.diag(
             [sphere_sizes[i//3] for i in range(3*num_spheres)]
             + [1/0.75 * sphere_sizes[i//3]**3 for i in range(3*num_spheres)]
             + [1/0.9 * sphere_sizes[i//5]**3 for i in range(5*num_spheres)]
@@ -169,12 +169,12 @@ def generate_grand_resistance_matrix_periodic(
             element_sizes, element_positions, element_deltax, num_elements,
             num_elements_array, element_type, uv_start, uv_size,
             element_start_count) = posdata_data(posdata)
-        Minfinity_inverse = mu * np.diag(
-            [sphere_sizes[i/3] for i in range(3*num_spheres)]
-            + [1/0.75 * sphere_sizes[i/3]**3 for i in range(3*num_spheres)]
-            + [1/0.9 * sphere_sizes[i/5]**3 for i in range(5*num_spheres)]
-            + [2 * dumbbell_sizes[i/3] for i in range(3*num_dumbbells)]
-            + [2 * dumbbell_sizes[i/3] for i in range(3*num_dumbbells)])
+        Minfinity_inverse = 6*np.pi*mu*np.diag(
+            [sphere_sizes[i//3] for i in range(3*num_spheres)]
+            + [1/0.75 * sphere_sizes[i//3]**3 for i in range(3*num_spheres)]
+            + [1/0.9 * sphere_sizes[i//5]**3 for i in range(5*num_spheres)]
+            + [2 * dumbbell_sizes[i//3] for i in range(3*num_dumbbells)]
+            + [2 * dumbbell_sizes[i//3] for i in range(3*num_dumbbells)])
         Minfinity_elapsed_time = 0
         Minfinity_inverse_elapsed_time = 0
 
-- 
2.43.0


From f75224c5f53bef9b47539ccae3a6e27dd9900da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:39 +0000
Subject: [PATCH 04/22] fix: solve periodic systems that have no spheres

Taking the background strain rate from the first sphere raised an IndexError
for dumbbells in a periodic box. The value passed on was not used.
---
 stokesian_dynamics/functions/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 613320a..9ca5711 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -290,7 +290,7 @@ def generate_output_FTSUOE(
                 cutoff_factor=cutoff_factor, printout=printout,
                 use_drag_Minfinity=use_drag_Minfinity,
                 use_Minfinity_only=use_Minfinity_only, frameno=frameno, mu=mu,
-                O_infinity=O_infinity, E_infinity=Ea_in[0],
+                O_infinity=O_infinity,
                 timestep=timestep,
                 centre_of_background_flow=centre_of_background_flow,
                 Ot_infinity=Ot_infinity, Et_infinity=Et_infinity)
-- 
2.43.0


From fbc32e4767f7e2e504a614167353598393993484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:45 +0000
Subject: [PATCH 05/22] fix: return all quantities when extracting the force on
 walls

In ufte form with extract_force_on_wall_due_to_dumbbells on, the velocities and
forces were never taken out of the solution, and a float was passed to reshape.
---
 stokesian_dynamics/functions/timestepping.py | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 9ca5711..f68c5c5 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -380,16 +380,16 @@ def generate_output_FTSUOE(
             else:
                 velocity_vector = np.linalg.solve(grand_resistance_matrix_ufte,
                                                   force_vector)
-                (FUa_out, Oa_out, Sa_out, Ub_out, HalfDUb_out) = deconstruct_velocity_vector_for_fts(
-                    posdata, velocity_vector)
-                Fa_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
-                Ua_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
-                Fa_out[0:num_fixed_velocity_spheres] = FUa_out[0:num_fixed_velocity_spheres]
-                Fa_out[num_fixed_velocity_spheres:num_spheres] = Fa_in[num_fixed_velocity_spheres:num_spheres]
-                Ua_out[0:num_fixed_velocity_spheres] = Ua_in[0:num_fixed_velocity_spheres]
-                Ua_out[num_fixed_velocity_spheres:num_spheres] = FUa_out[num_fixed_velocity_spheres:num_spheres]
-                (Ta_out, Ea_out, Fb_out, DFb_out) = (
-                    Ta_in[:], Ea_in[:], Fb_in[:], DFb_in[:])
+            (FUa_out, Oa_out, Sa_out, Ub_out, HalfDUb_out) = deconstruct_velocity_vector_for_fts(
+                posdata, velocity_vector)
+            Fa_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
+            Ua_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
+            Fa_out[0:num_fixed_velocity_spheres] = FUa_out[0:num_fixed_velocity_spheres]
+            Fa_out[num_fixed_velocity_spheres:num_spheres] = Fa_in[num_fixed_velocity_spheres:num_spheres]
+            Ua_out[0:num_fixed_velocity_spheres] = Ua_in[0:num_fixed_velocity_spheres]
+            Ua_out[num_fixed_velocity_spheres:num_spheres] = FUa_out[num_fixed_velocity_spheres:num_spheres]
+            (Ta_out, Ea_out, Fb_out, DFb_out) = (
+                Ta_in[:], Ea_in[:], Fb_in[:], DFb_in[:])
 
             if extract_force_on_wall_due_to_dumbbells:
                 # For finding effect of the dumbbells on the measured Force on the walls.
@@ -401,7 +401,7 @@ def generate_output_FTSUOE(
                 force_on_wall_due_to_dumbbells_flat = np.dot(
                     force_on_wall_due_to_dumbbells_matrix, dumbbell_forces)
                 force_on_wall_due_to_dumbbells = force_on_wall_due_to_dumbbells_flat.reshape(
-                    len(force_on_wall_due_to_dumbbells_flat)/3, 3)
+                    len(force_on_wall_due_to_dumbbells_flat)//3, 3)
 
         elif input_form == 'ufteu':
             num_fixed_velocity_spheres = (num_spheres
-- 
2.43.0


From d0e22dcff5949feb7977716c41adcecd85dc139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:45 +0000
Subject: [PATCH 06/22] fix: keep the extract-force command-line argument

The default was assigned after the command line was read, so the sixth
argument had no effect.
---
 stokesian_dynamics/settings.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stokesian_dynamics/settings.py b/stokesian_dynamics/settings.py
index 9f8c847..83ca4bd 100755
--- a/stokesian_dynamics/settings.py
+++ b/stokesian_dynamics/settings.py
@@ -35,6 +35,11 @@ num_frames = 100
 # How to solve the equation U=MF. {'fts','fte','ufte','ufteu','duf'}
 input_form = 'fte'
 
+# Work out the force on any particles whose velocities are specified in the
+# input file. (Typical use case: these 'fixed' particles are acting as walls.)
+# This is saved to `force_on_wall_due_to_dumbbells` in the output NPZ file.
+extract_force_on_wall_due_to_dumbbells = False
+
 # ----------------------------------------------------------------------------|
 # BASIC SETTINGS: OVERRIDES FROM COMMAND LINE
 
@@ -121,11 +126,6 @@ if start_saving_after_first_n_timesteps > num_frames:
     print("WARNING: start_saving_after_first_n_timesteps > num_frames. "
           + "Saving will fail.")
 
-# Work out the force on any particles whose velocities are specified in the
-# input file. (Typical use case: these 'fixed' particles are acting as walls.)
-# This is saved to `force_on_wall_due_to_dumbbells` in the output NPZ file.
-extract_force_on_wall_due_to_dumbbells = False
-
 # Just use diagonal terms of Minfinity. Good(?) approximation for dense
 # suspensions only.
 use_drag_Minfinity = False
-- 
2.43.0


From 53836cc10c6eada2055365d0b3ef52a43173765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:24 +0000
Subject: [PATCH 07/22] fix: take AB2 steps with dumbbells

The first-step test compared the frame number with the checkpoint file name, so any two-step Adams-Bashforth run with dumbbells stopped with a TypeError.
---
 stokesian_dynamics/run_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 96a4ddb..5a629c6 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -279,7 +279,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
                     Ub_out_k1, HalfDUb_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
-                if timestepping_scheme == "euler" or frameno - checkpoint_filename == 0:
+                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_dumbbell_positions = euler_timestep(
                         dumbbell_positions, Ub_out_plus_infinities_k1, timestep)
                     new_dumbbell_deltax = euler_timestep(
-- 
2.43.0


From db5ed4f6d1fa0d001ce4151639f3b2b0cbcc5b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:27 +0000
Subject: [PATCH 08/22] fix: evaluate the background flow of RK4 stages at the
 stage configuration

The second, third and fourth stages added the background flow at the positions and extensions of the start of the step, and the second stage used the strain rate of the first for dumbbells. A linear background flow was therefore only followed to first order.
---
 stokesian_dynamics/run_simulation.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 5a629c6..6b5ec32 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -351,6 +351,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                     sphere_positions, centre_of_background_flow)
                 sphere_positions_k1 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k1, timestep/2)
+                sphere_positions_k1_unwrapped = sphere_positions_k1
                 sphere_rotations_k1 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k1,
                     sphere_rotations_k1, Oa_out_plus_infinities_k1, timestep/2)
@@ -365,6 +366,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
                 dumbbell_positions_k1 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k1, timestep/2)
+                dumbbell_positions_k1_unwrapped = dumbbell_positions_k1
                 dumbbell_deltax_k1 = euler_timestep(
                     dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k1, timestep/2)
                 error = did_something_go_wrong_with_dumbells(
@@ -400,9 +402,10 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k2, Oa_out_plus_infinities_k2 = add_background_flow_spheres(
                     Ua_out_k2, Oa_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
-                    sphere_positions, centre_of_background_flow)
+                    sphere_positions_k1_unwrapped, centre_of_background_flow)
                 sphere_positions_k2 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k2, timestep/2)
+                sphere_positions_k2_unwrapped = sphere_positions_k2
                 sphere_rotations_k2 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k2,
                     sphere_rotations_k2, Oa_out_plus_infinities_k2, timestep/2)
@@ -413,10 +416,12 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k2, HalfDUb_out_plus_infinities_k2 = add_background_flow_dumbbells(
-                    Ub_out_k2, HalfDUb_out_k2, Ea_out_k1, U_infinity_k2, O_infinity_k2,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    Ub_out_k2, HalfDUb_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
+                    dumbbell_positions_k1_unwrapped, dumbbell_deltax_k1,
+                    centre_of_background_flow)
                 dumbbell_positions_k2 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k2, timestep/2)
+                dumbbell_positions_k2_unwrapped = dumbbell_positions_k2
                 dumbbell_deltax_k2 = euler_timestep(
                     dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k2, timestep/2)
                 error = did_something_go_wrong_with_dumbells(
@@ -449,9 +454,10 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k3, Oa_out_plus_infinities_k3 = add_background_flow_spheres(
                     Ua_out_k3, Oa_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
-                    sphere_positions, centre_of_background_flow)
+                    sphere_positions_k2_unwrapped, centre_of_background_flow)
                 sphere_positions_k3 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k3, timestep)
+                sphere_positions_k3_unwrapped = sphere_positions_k3
                 sphere_rotations_k3 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k3,
                     sphere_rotations_k3, Oa_out_plus_infinities_k3, timestep)
@@ -463,9 +469,11 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k3, HalfDUb_out_plus_infinities_k3 = add_background_flow_dumbbells(
                     Ub_out_k3, HalfDUb_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    dumbbell_positions_k2_unwrapped, dumbbell_deltax_k2,
+                    centre_of_background_flow)
                 dumbbell_positions_k3 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k3, timestep)
+                dumbbell_positions_k3_unwrapped = dumbbell_positions_k3
                 dumbbell_deltax_k3 = euler_timestep(
                     dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k3, timestep)
                 error = did_something_go_wrong_with_dumbells(
@@ -497,11 +505,12 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k4, Oa_out_plus_infinities_k4 = add_background_flow_spheres(
                     Ua_out_k4, Oa_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
-                    sphere_positions, centre_of_background_flow)
+                    sphere_positions_k3_unwrapped, centre_of_background_flow)
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k4, HalfDUb_out_plus_infinities_k4 = add_background_flow_dumbbells(
                     Ub_out_k4, HalfDUb_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    dumbbell_positions_k3_unwrapped, dumbbell_deltax_k3,
+                    centre_of_background_flow)
             for i in range(len(gen_times)):
                 gen_times[i] = gen_times[i] + gen_times_2[i]
 
-- 
2.43.0


From 046bd9ef73a329700337ca26b18d814040b6d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:32 +0000
Subject: [PATCH 09/22] fix: keep rotation vectors attached to spheres that
 wrap round the box

The Euler and AB2 schemes moved the end points of the rotation vectors to the new sphere centre before it was wrapped into the periodic box. After a wrap the vectors were a box length away from their sphere and changed length from then on.
---
 stokesian_dynamics/run_simulation.py | 34 ++++++++++++++++------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 6b5ec32..250225a 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -258,22 +258,26 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_positions = euler_timestep(
                         sphere_positions, Ua_out_plus_infinities_k1, timestep)
+                else:
+                    new_sphere_positions = ab2_timestep(
+                        sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
+                # The rotation vectors are attached to the sphere centres, so
+                # wrap the centres first.
+                if periodic:
+                    new_sphere_positions = wrap_around(
+                        new_sphere_positions, box_bottom_left, box_top_right,
+                        Ot_infinity_k1, Et_infinity_k1)
+                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_rotations = euler_timestep_rotation(
                         sphere_positions, sphere_rotations,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, timestep)
                 else:
-                    new_sphere_positions = ab2_timestep(
-                        sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
                     new_sphere_rotations = ab2_timestep_rotation(
                         sphere_positions, sphere_rotations,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, last_velocities[3],
                         timestep)
-                if periodic:
-                    new_sphere_positions = wrap_around(
-                        new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
@@ -352,13 +356,13 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 sphere_positions_k1 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k1, timestep/2)
                 sphere_positions_k1_unwrapped = sphere_positions_k1
-                sphere_rotations_k1 = euler_timestep_rotation(
-                    sphere_positions, sphere_rotations, sphere_positions_k1,
-                    sphere_rotations_k1, Oa_out_plus_infinities_k1, timestep/2)
                 if periodic:
                     sphere_positions_k1 = wrap_around(
                         sphere_positions_k1, box_bottom_left, box_top_right,
                         Ot_infinity_k1, Et_infinity_k1)
+                sphere_rotations_k1 = euler_timestep_rotation(
+                    sphere_positions, sphere_rotations, sphere_positions_k1,
+                    sphere_rotations_k1, Oa_out_plus_infinities_k1, timestep/2)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
@@ -406,13 +410,13 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 sphere_positions_k2 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k2, timestep/2)
                 sphere_positions_k2_unwrapped = sphere_positions_k2
-                sphere_rotations_k2 = euler_timestep_rotation(
-                    sphere_positions, sphere_rotations, sphere_positions_k2,
-                    sphere_rotations_k2, Oa_out_plus_infinities_k2, timestep/2)
                 if periodic:
                     sphere_positions_k2 = wrap_around(
                         sphere_positions_k2, box_bottom_left, box_top_right,
                         Ot_infinity_k2, Et_infinity_k2)
+                sphere_rotations_k2 = euler_timestep_rotation(
+                    sphere_positions, sphere_rotations, sphere_positions_k2,
+                    sphere_rotations_k2, Oa_out_plus_infinities_k2, timestep/2)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k2, HalfDUb_out_plus_infinities_k2 = add_background_flow_dumbbells(
@@ -458,13 +462,13 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 sphere_positions_k3 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k3, timestep)
                 sphere_positions_k3_unwrapped = sphere_positions_k3
-                sphere_rotations_k3 = euler_timestep_rotation(
-                    sphere_positions, sphere_rotations, sphere_positions_k3,
-                    sphere_rotations_k3, Oa_out_plus_infinities_k3, timestep)
                 if periodic:
                     sphere_positions_k3 = wrap_around(
                         sphere_positions_k3, box_bottom_left, box_top_right,
                         Ot_infinity_k3, Et_infinity_k3)
+                sphere_rotations_k3 = euler_timestep_rotation(
+                    sphere_positions, sphere_rotations, sphere_positions_k3,
+                    sphere_rotations_k3, Oa_out_plus_infinities_k3, timestep)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k3, HalfDUb_out_plus_infinities_k3 = add_background_flow_dumbbells(
-- 
2.43.0


From 8e05d2a45a04be7178305dafe1dfe97c06689d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:18 +0000
Subject: [PATCH 10/22] fix: wrap positions into the box as sheared at the time
 they are for

New positions, and the positions of the second and fourth RK4 stages, were wrapped with the box of an earlier time. In a shearing periodic box a particle leaving through the top or bottom was then put at a place that is not one of its images, off by the distance the box shears in the step.
---
 stokesian_dynamics/run_simulation.py | 30 ++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 250225a..d62eef3 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -225,6 +225,16 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             last_velocities = [Ua_blank, Ub_blank, DUb_blank, Ua_blank]  # Oa_blank at the end there
             last_velocity_vector = [0 for _ in range(11*num_spheres + 6*num_dumbbells)]
 
+        if periodic:
+            # The box shears in time, so positions have to be wrapped into the
+            # box as it is at the time which the positions are for.
+            (Ot_infinity_mid, Et_infinity_mid) = input_ftsuoe(
+                input_number, posdata, frameno + 0.5, timestep, last_velocities,
+                skip_computation=True, input_form=input_form)[16:18]
+            (Ot_infinity_end, Et_infinity_end) = input_ftsuoe(
+                input_number, posdata, frameno + 1, timestep, last_velocities,
+                skip_computation=True, input_form=input_form)[16:18]
+
         if num_spheres == 0:
             new_sphere_positions = np.copy(sphere_positions)
         if num_dumbbells == 0:
@@ -266,7 +276,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_sphere_positions = wrap_around(
                         new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_end, Et_infinity_end)
                 if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_rotations = euler_timestep_rotation(
                         sphere_positions, sphere_rotations,
@@ -298,7 +308,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_dumbbell_positions = wrap_around(
                         new_dumbbell_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_end, Et_infinity_end)
 
             if num_spheres > 0 and num_dumbbells == 0:
                 last_velocities = [Ua_out_plus_infinities_k1, 0, 0, Oa_out_plus_infinities_k1]
@@ -359,7 +369,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     sphere_positions_k1 = wrap_around(
                         sphere_positions_k1, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_mid, Et_infinity_mid)
                 sphere_rotations_k1 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k1,
                     sphere_rotations_k1, Oa_out_plus_infinities_k1, timestep/2)
@@ -378,7 +388,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     dumbbell_positions_k1 = wrap_around(
                         dumbbell_positions_k1, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_mid, Et_infinity_mid)
 
             posdata_k1 = (sphere_sizes, sphere_positions_k1,
                           sphere_rotations_k1, dumbbell_sizes,
@@ -413,7 +423,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     sphere_positions_k2 = wrap_around(
                         sphere_positions_k2, box_bottom_left, box_top_right,
-                        Ot_infinity_k2, Et_infinity_k2)
+                        Ot_infinity_mid, Et_infinity_mid)
                 sphere_rotations_k2 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k2,
                     sphere_rotations_k2, Oa_out_plus_infinities_k2, timestep/2)
@@ -433,7 +443,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     dumbbell_positions_k2 = wrap_around(
                         dumbbell_positions_k2, box_bottom_left, box_top_right,
-                        Ot_infinity_k2, Et_infinity_k2)
+                        Ot_infinity_mid, Et_infinity_mid)
 
             posdata_k2 = (sphere_sizes, sphere_positions_k2,
                           sphere_rotations_k2, dumbbell_sizes,
@@ -465,7 +475,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     sphere_positions_k3 = wrap_around(
                         sphere_positions_k3, box_bottom_left, box_top_right,
-                        Ot_infinity_k3, Et_infinity_k3)
+                        Ot_infinity_end, Et_infinity_end)
                 sphere_rotations_k3 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k3,
                     sphere_rotations_k3, Oa_out_plus_infinities_k3, timestep)
@@ -485,7 +495,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     dumbbell_positions_k3 = wrap_around(
                         dumbbell_positions_k3, box_bottom_left, box_top_right,
-                        Ot_infinity_k3, Et_infinity_k3)
+                        Ot_infinity_end, Et_infinity_end)
 
             posdata_k3 = (sphere_sizes, sphere_positions_k3,
                           sphere_rotations_k3, dumbbell_sizes,
@@ -540,7 +550,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_sphere_positions = wrap_around(
                         new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_end, Et_infinity_end)
                 new_sphere_rotations = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, new_sphere_positions,
                     new_sphere_rotations, Oa_out_blended, timestep)
@@ -563,7 +573,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_dumbbell_positions = wrap_around(
                         new_dumbbell_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_end, Et_infinity_end)
 
             if num_spheres > 0 and num_dumbbells == 0:
                 last_velocities = [Ua_out_blended, 0, 0, Oa_out_blended]
-- 
2.43.0


From 0aef65684eef9e303ce3ba666ed8bdeb08563c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:42 +0000
Subject: [PATCH 11/22] fix: save from the first due frame for every saving
 start and interval

The saved arrays were only created on the frame equal to start_saving_after_first_n_timesteps. If that is not a multiple of the saving interval the frame is not due, and the run stopped with an error at the first frame that is. Turning one of the two kinds of saving off also ended in an error at the final save.
---
 stokesian_dynamics/run_simulation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index d62eef3..0253ac4 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -74,6 +74,13 @@ error = False
 previous_step_posdata = posdata
 previous_timestamp = time.time()
 saved_element_positions = np.array([])
+saved_sphere_rotations = np.array([])
+saved_deltax = np.array([])
+saved_Fa_out = np.array([])
+saved_Fb_out = np.array([])
+saved_DFb_out = np.array([])
+saved_Sa_out = np.array([])
+saved_force_on_wall_due_to_dumbbells = np.array([])
 times = [0 for _ in range(num_frames)]
 output_folder = "output"
 legion_random_id = ""
@@ -626,7 +633,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             and frameno % save_positions_every_n_timesteps == 0
             and frameno >= start_saving_after_first_n_timesteps
         ):
-            if frameno == start_saving_after_first_n_timesteps:  # usually 0
+            if len(saved_element_positions) == 0:  # nothing saved yet
                 saved_element_positions = np.array([element_positions])
                 saved_sphere_rotations = np.array([sphere_rotations])
                 saved_deltax = np.array([dumbbell_deltax])
@@ -651,7 +658,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             and frameno % save_forces_every_n_timesteps == 0
             and frameno >= start_saving_after_first_n_timesteps
         ):
-            if frameno == start_saving_after_first_n_timesteps:  # usually 0
+            if len(saved_Fa_out) == 0:  # nothing saved yet
                 saved_Fa_out = np.array([Fa_out])
                 saved_Fb_out = np.array([Fb_out])
                 saved_DFb_out = np.array([DFb_out])
-- 
2.43.0


From 78e2a9971a6eb1ecf1290833a61cceb952d8c688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:21 +0000
Subject: [PATCH 12/22] fix: resume from a checkpoint at the frame its last
 positions belong to

Resuming started one frame late from the last saved positions, so a frame was missing from the saved history and time-dependent inputs were a step ahead. The start frame was also wrong when not every frame is saved, forces saved more often than positions were repeated, and the rotation vectors were reset.
---
 stokesian_dynamics/run_simulation.py   | 12 ++++++++++++
 stokesian_dynamics/setups/positions.py | 18 ++++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 0253ac4..a0c56ca 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -829,6 +829,18 @@ if error == 0:
             saved_deltax = saved_data['deltax']
             saved_force_on_wall_due_to_dumbbells = saved_data[
                 'force_on_wall_due_to_dumbbells']
+        # If forces are saved more often than positions, some may be for frames
+        # which will now be repeated.
+        num_saved_forces = len([
+            i for i in range(start_saving_after_first_n_timesteps,
+                             checkpoint_start_from_frame + 1)
+            if i % save_forces_every_n_timesteps == 0])
+        saved_Fa_out = saved_Fa_out[:num_saved_forces]
+        saved_Fb_out = saved_Fb_out[:num_saved_forces]
+        saved_DFb_out = saved_DFb_out[:num_saved_forces]
+        saved_Sa_out = saved_Sa_out[:num_saved_forces]
+        saved_force_on_wall_due_to_dumbbells = (
+            saved_force_on_wall_due_to_dumbbells[:num_saved_forces])
 
     warning_formatting_start = "\033[43m\033[30m"
     warning_formatting_end = "\033[39m\033[49m"
diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index bb6b78d..6c4cb09 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -12,7 +12,9 @@ import numpy as np
 from functions.shared import (add_sphere_rotations_to_positions, same_setup_as,
                               throw_error)
 import glob
-from settings import setup_number, input_number, num_frames, timestep
+from settings import (setup_number, input_number, num_frames, timestep,
+                      save_positions_every_n_timesteps,
+                      start_saving_after_first_n_timesteps)
 from setups.tests.positions import pos_setup_tests
 from setups.functions_positions import (simple_cubic_8, randomise_spheres,
                                         randomise_dumbbells)
@@ -215,6 +217,15 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
             with np.load(filename) as data1:
                 positions_centres = data1['centres']
                 positions_deltax = data1['deltax']
+                positions_rotations = data1['sphere_rotations']
+            # Start again from the frame whose starting positions were the last
+            # to be saved.
+            first_saved_frame = (start_saving_after_first_n_timesteps
+                                 + -start_saving_after_first_n_timesteps
+                                 % save_positions_every_n_timesteps)
+            last_saved_frame = (
+                first_saved_frame
+                + save_positions_every_n_timesteps*(positions_centres.shape[0] - 1))
             num_particles = positions_centres.shape[1]
             num_dumbbells = positions_deltax.shape[1]
             num_spheres = num_particles - num_dumbbells
@@ -224,13 +235,12 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
             dumbbell_deltax = positions_deltax[-1, :, :]
             sphere_sizes = ignored_posdata[0]
             dumbbell_sizes = ignored_posdata[3]
-            sphere_rotations = add_sphere_rotations_to_positions(
-                sphere_positions, sphere_sizes, np.array([[1,0,0],[0,0,1]]))
+            sphere_rotations = positions_rotations[-1]
             posdata = (sphere_sizes, sphere_positions, sphere_rotations,
                        dumbbell_sizes, dumbbell_positions, dumbbell_deltax)
 
             checkpoint_filename = filename
-            checkpoint_start_from_frame = positions_centres.shape[0]
+            checkpoint_start_from_frame = last_saved_frame
 
             word_checkpoint = "\033[42m\033[01m CHECKPOINT FOUND \033[0m\033[49m "
             print(
-- 
2.43.0


From 210a4c566f7e40feb9928ecf9ac6302abcba6844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:26 +0000
Subject: [PATCH 13/22] fix: run periodic simulations whether Numba is on or
 off

The helper that shears the box vectors cannot be compiled by Numba: it takes
cross products of vectors with matrices, and products of integer matrices with
real ones. It was compiled even with Numba turned off in the settings, because
the setting is read after this file has been loaded. Every simulation in a
periodic box stopped with a typing error.
---
 stokesian_dynamics/functions/shared.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index 2355603..05f6387 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -424,7 +424,6 @@ def feed_particles_from_bottom(posdata, feed_every_n_timesteps, feed_from_file,
             new_dumbbell_sizes, new_dumbbell_positions, new_dumbbell_deltax)
 
 
-@njit(cache=True)
 def shear_basis_vectors(basis_canonical, box_dimensions,
                         Ot_infinity, Et_infinity):
     """Shear the basis vectors representing the periodic box."""
-- 
2.43.0


From a4dbfa8b62b18b0436de5fe32739ad6bd49bc2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:10 +0000
Subject: [PATCH 14/22] fix: correct the xi log xi coefficient of Y12M

G6ym had 728 where 748 is right. With 728, two spheres whose surfaces move
with one linear strain field would feel a singular stresslet in the gap, and
the coefficient disagrees with the large-order behaviour of the recurrence
terms it is subtracted from in MY12.

The stored tables were made with the old value. They differ from the
corrected function by less than 4e-4 and are left as they are.
---
 find_resistance_scalars/functions_nearfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/find_resistance_scalars/functions_nearfield.py b/find_resistance_scalars/functions_nearfield.py
index bab8a0e..363e9a1 100644
--- a/find_resistance_scalars/functions_nearfield.py
+++ b/find_resistance_scalars/functions_nearfield.py
@@ -893,7 +893,7 @@ def G5ym(lam):
 @cache
 def G6ym(lam):
     """(J 64b.4)"""
-    return 3/2500*lam*(221-728*lam+1902*lam**2-728*lam**3+221*lam**4)/(1+lam)**3
+    return 3/2500*lam*(221-748*lam+1902*lam**2-748*lam**3+221*lam**4)/(1+lam)**3
 
 
 @cache
-- 
2.43.0


From ab01c9de9818458deb743593145624623ad07169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:02 +0000
Subject: [PATCH 15/22] fix: place a single sphere at random

The report of the closest pair of added spheres took the minimum of an
empty array when only one sphere was added, and raised an error.
---
 stokesian_dynamics/setups/functions_positions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 0269ebc..645840e 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -62,12 +62,13 @@ def randomise_spheres(random_box_bottom_left, random_box_top_right,
 
     random_sphere_positions = sphere_positions_out[
         current_sphere_positions.shape[0]:all_sphere_sizes.shape[0]]
-    distance_matrix = np.linalg.norm(
-        random_sphere_positions-random_sphere_positions[:, None], axis=2)
-    min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
-    two_closest_elements = np.where(distance_matrix == min_element_distance)
-    print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
-    print("Closest two spheres: " + str(two_closest_elements[0]))
+    if len(random_sphere_sizes) > 1:
+        distance_matrix = np.linalg.norm(
+            random_sphere_positions-random_sphere_positions[:, None], axis=2)
+        min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
+        two_closest_elements = np.where(distance_matrix == min_element_distance)
+        print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
+        print("Closest two spheres: " + str(two_closest_elements[0]))
 
     box_dimensions = abs(np.asarray(random_box_top_right)
                          - np.asarray(random_box_bottom_left))
-- 
2.43.0


From e2bb1485c4c082948e03782282dff38edaf70b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:02 +0000
Subject: [PATCH 16/22] fix: keep randomly placed periodic dumbbells at their
 own height

The second bead may lie below the bottom of the box in y. When this put
the centre below the bottom too, the wrap moved it by a million units.
The box is only periodic in x and z, so wrap only those.
---
 stokesian_dynamics/setups/functions_positions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 645840e..3292c2b 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -285,10 +285,12 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
         dumbbell_positions[i] = 0.5*(proposed_bead1_position+proposed_bead2_position)
         dumbbell_deltax[i] = (proposed_bead2_position-proposed_bead1_position)
 
-        # Move the dumbbell_positions (centre) to inside the periodic box
-        dumbbell_positions[i] = (np.mod(
-            dumbbell_positions[i]-random_box_bottom_left, [Dx, 1e6, Dz]
-        ) + random_box_bottom_left)
+        # Move the dumbbell_positions (centre) to inside the periodic box. The box
+        # is periodic in x and z only.
+        for k, D in [(0, Dx), (2, Dz)]:
+            dumbbell_positions[i, k] = (np.mod(
+                dumbbell_positions[i, k]-random_box_bottom_left[k], D
+            ) + random_box_bottom_left[k])
 
     print(" succeeded.")
 
-- 
2.43.0


From 55cdeb4d71a492b812d9eb9b37eb207164944f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:02 +0000
Subject: [PATCH 17/22] fix: place small periodic dumbbells without stopping to
 debug

A leftover debugging block opened an interactive shell whenever two beads
were closer than 0.2, which is allowed for beads with radius below 0.1.
---
 stokesian_dynamics/setups/functions_positions.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 3292c2b..5136e5b 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -265,19 +265,6 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
                 if bingo == 1:
                     break
 
-        q = 1000
-        qq = 1000
-        for m in [-1, 0, 1]:
-            for n in [-1, 0, 1]:
-                dxy = np.array([m*Dx, 0, n*Dz])
-                for p in bead_positions[:i]:
-                    q = min(q, np.linalg.norm(proposed_bead2_position - (p+dxy)))
-                    qq = min(qq, np.linalg.norm(proposed_bead1_position - (p+dxy)))
-        if min(q, qq) < 0.2:
-            print(min(q, qq))
-            from IPython import embed
-            embed()
-
         sys.stdout.write('|')
         sys.stdout.flush()
         bead_positions[2*i] = proposed_bead1_position
-- 
2.43.0


From 2b6120410c9c26dc61e34eab8bc8cfb53bc4e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:02 +0000
Subject: [PATCH 18/22] fix: return the dumbbells placed inside a quadrilateral

The reshape was given a float and always raised an error. It also paired
beads of different dumbbells, and halved the bead-to-bead vector, which
is the full vector elsewhere.
---
 stokesian_dynamics/setups/functions_positions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 5136e5b..75a3116 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -361,9 +361,9 @@ def randomise_beads_inside_quadrilateral(quadrilateral, dumbbell_sizes,
         sys.stdout.flush()
         bead_positions[i] = proposed_bead1_position
 
-    pos3 = bead_positions.reshape([2, bead_positions.shape[0]/2, 3])
-    pos3_dumbbell = 0.5*(pos3[0] + pos3[1])
-    pos3_deltax = 0.5*(pos3[1] - pos3[0])
+    pos3 = bead_positions.reshape([num_dumbbells, 2, 3])
+    pos3_dumbbell = 0.5*(pos3[:, 0] + pos3[:, 1])
+    pos3_deltax = pos3[:, 1] - pos3[:, 0]
 
     print("... succeeded.")
 
-- 
2.43.0


From 3814531f0ae039e6d63c3f1af547adfab813cd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:42 +0000
Subject: [PATCH 19/22] fix: use each particle's own radius in periodic
 sphere-dumbbell couplings

The torque and stresslet couplings between a sphere and a dumbbell bead were
computed with the two radii exchanged. The non-periodic code has them in the
right order.
---
 .../functions/generate_Minfinity_periodic.py              | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index d1ce422..34765b4 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -1087,12 +1087,12 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[M24_c[0]:M24_c[0]+3,
                       M24_c[1]:M24_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2,
+                          M12(j, i, mr, s, a2, a1,
                               X_lmn, num_X_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, X_lmn, num_X_points, c, mu, m_s_lmn,
+            args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu, m_s_lmn,
                     m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
@@ -1122,11 +1122,11 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                           for j in range(3)] for i in range(3)])
             Minfinity[M25_c[0]:M25_c[0]+3,
                       M25_c[1]:M25_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2, X_lmn, num_X_points,
+                          M12(j, i, mr, s, a2, a1, X_lmn, num_X_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, X_lmn, num_X_points, c, mu, m_s_lmn,
+            args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu, m_s_lmn,
                     m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
-- 
2.43.0


From 9b77f5404dd67b1b5fc635736686c92c28f0fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:42 +0000
Subject: [PATCH 20/22] fix: take the wave-space self term off the periodic
 rotational mobility

The wave-space half of the rotlet does not vanish at zero separation. It has to
be subtracted from the self term, as is done for the other couplings.
---
 .../functions/generate_Minfinity_periodic.py             | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index 34765b4..c7965e9 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -640,7 +640,7 @@ def M13(i, j, k, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
 
 
 @njit(cache=True)
-def M22(i, j, r, s, a1, a2, erfcs, L, X_lmn, Xdash_lmn, Sdash_lmn,
+def M22(i, j, r, s, a1, a2, erfcs, L, lamb, X_lmn, Xdash_lmn, Sdash_lmn,
         erfcs_Sdash_lmn, K_lmn, Ks_lmn, RR_K, num_X_points, num_Xdash_points,
         num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ij of Minfinity submatrix c. Same form as PhD thesis
@@ -673,8 +673,9 @@ def M22(i, j, r, s, a1, a2, erfcs, L, X_lmn, Xdash_lmn, Sdash_lmn,
         for q in range(num_K_points):
             sum_ck += cktilde(K_lmn[q], Ks_lmn[q], a1, a1, i, j, RR_K[q], c)
         sum_ck *= 1./L**3
-        # (5) = 0
-        return c_aa + sum_cr + sum_ck
+        # (5)
+        c_k0 = c*kronmatrix[i][j]*40*lamb**3/(3*spi)
+        return c_aa + sum_cr + sum_ck - c_k0
 
 
 @njit(cache=True)
@@ -993,7 +994,7 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[C_c[0]:C_c[0]+3,
                       C_c[1]:C_c[1]+3] = np.array([[
-                          M22(i, j, r, s, a1, a2, erfcs, L,
+                          M22(i, j, r, s, a1, a2, erfcs, L, lamb,
                               X_lmn, Xdash_lmn, Sdash_lmn, erfcs_Sdash_lmn,
                               K_lmn, Ks_lmn, RR_K,
                               num_X_points, num_Xdash_points, num_K_points,
-- 
2.43.0


From e0139269ece25bf3540425aa314b19c424f6443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:42 +0000
Subject: [PATCH 21/22] fix: include the wave-space sum in periodic
 force-torque and force-stresslet couplings

The transforms of these couplings are imaginary and odd in the wave vector, so
the sine part of exp(i k.x) remains in the sum. It was left out, which made the
couplings depend on the splitting parameter.
---
 .../functions/generate_Minfinity_periodic.py  | 117 ++++++++++++------
 1 file changed, 82 insertions(+), 35 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index c7965e9..3851d83 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -434,8 +434,8 @@ def mr(r, s, a1, a2, i, j, k, l, erfcs, c, mu):
 
 
 # === FOURIER TRANSFORMED J^k(k) ===
-# The only ones required are Jtilde, DD_Jtilde, D_Rtilde, D_Ktilde, LapJ_tilde,
-# DLapK_tilde.
+# The only ones required are Jtilde, D_Jtilde, DD_Jtilde, D_Rtilde, D_Ktilde,
+# LapJ_tilde, DLapK_tilde.
 
 @njit(cache=True)
 def Jtilde(ki, kj, ss, i, j, RR):
@@ -444,6 +444,13 @@ def Jtilde(ki, kj, ss, i, j, RR):
     return -((i == j)*ss**2 - ki*kj)*RR
 
 
+@njit(cache=True)
+def D_Jtilde(kkl, kki, kkj, ss, i, j, RR):
+    """Fourier transform of derivative of wavespace Oseen tensor, D_l J^k_ij(k),
+    divided by the imaginary unit."""
+    return kkl * Jtilde(kki, kkj, ss, i, j, RR)
+
+
 @njit(cache=True)
 def DD_Jtilde(kkm, kkl, kki, kkj, ss, i, j, RR):
     """Fourier transform of 2nd derivative of wavespace Oseen tensor,
@@ -503,6 +510,33 @@ def aktilde(kk, ss, a1, a2, i, j, RR, c):
               + (a1**2 + a2**2)/6. * Lap_Jtilde(kki, kkj, ss, i, j, RR))
 
 
+@njit(cache=True)
+def btktilde(kk, ss, a1, a2, i, j, RR, c):
+    """Element ij of the wavespace periodic version of Minfinity submatrix
+    b tilde, divided by the imaginary unit. See docstring for aktilde."""
+    kki = kk[i]
+    m = (j+1) % 3
+    n = (j+2) % 3
+    kkm = kk[m]
+    kkn = kk[n]
+    return c*(1 - a1**2/6. * ss**2) * -0.5*(
+        D_Jtilde(kkm, kki, kkn, ss, i, n, RR)
+        - D_Jtilde(kkn, kki, kkm, ss, i, m, RR))
+
+
+@njit(cache=True)
+def gtktilde(kk, ss, a1, a2, i, j, k, RR, c):
+    """Element ijk of the uncontracted wavespace periodic version of Minfinity
+    submatrix g tilde, divided by the imaginary unit. See docstring for
+    aktilde."""
+    kki = kk[i]
+    kkj = kk[j]
+    kkk = kk[k]
+    return -c*(1 - (a1**2/6. + a2**2/10.) * ss**2) * 0.5*(
+        D_Jtilde(kkk, kki, kkj, ss, i, j, RR)
+        + D_Jtilde(kkj, kki, kkk, ss, i, k, RR))
+
+
 @njit(cache=True)
 def cktilde(kk, ss, a1, a2, i, j, RR, c):
     """Element ij of the wavespace periodic version of Minfinity submatrix c.
@@ -598,43 +632,49 @@ def M11(i, j, r, s, a1, a2, erfcs, L, lamb, X_lmn, Xdash_lmn, Sdash_lmn,
 
 
 @njit(cache=True)
-def M12(i, j, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
+def M12(i, j, r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K, num_X_points,
+        num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ij of Minfinity submatrix b tilde. Same form as PhD thesis
     (2.155)-(2.156), and see note at bottom of page."""
     if s > 1e-10:
         # (2)
-        # Return value below is just sum_btr
-        bt = 0.
+        sum_btr = 0.
         for q in range(num_X_points):
-            bt += btr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, erfcs_lmn[q], c,
-                      mu)
-        return bt
+            sum_btr += btr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, erfcs_lmn[q],
+                           c, mu)
         # (4)
-        # I think sum_btk always ends up being 0 (given that it's imaginary,
-        # over the sum it looks like it cancels out)
-        # Imaginary part of e(i*k.r) always cancels out over the sum I think
-        # (should probably try to show this but I'm pretty certain)
-        # return sum_btr
+        # The transform is imaginary, so the sine part of exp(i k_lmn.x) remains
+        sum_btk = 0.
+        for q in range(num_K_points):
+            sum_btk -= (math.sin(np.dot(K_lmn[q], r))
+                        * btktilde(K_lmn[q], Ks_lmn[q], a1, a2, i, j, RR_K[q],
+                                   c))
+        sum_btk *= 1./L**3
+        return sum_btr + sum_btk
     else:
         return 0
 
 
 @njit(cache=True)
-def M13(i, j, k, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
+def M13(i, j, k, r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K, num_X_points,
+        num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ijk of uncontracted Minfinity submatrix g tilde. Same form as
     PhD thesis (2.155)-(2.156), and see note at bottom of page."""
     if s > 1e-10:
         # (2)
-        # Return value below is just sum_gtr
-        gt = 0.
+        sum_gtr = 0.
         for q in range(num_X_points):
-            gt += gtr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, k, erfcs_lmn[q],
-                      c, mu)
-        return gt
+            sum_gtr += gtr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, k,
+                           erfcs_lmn[q], c, mu)
         # (4)
-        # I think gtk always ends up being 0 (given that it's imaginary, over
-        # the sum it looks like it cancels out)
-        # return sum_gtr
+        # The transform is imaginary, so the sine part of exp(i k_lmn.x) remains
+        sum_gtk = 0.
+        for q in range(num_K_points):
+            sum_gtk -= (math.sin(np.dot(K_lmn[q], r))
+                        * gtktilde(K_lmn[q], Ks_lmn[q], a1, a2, i, j, k,
+                                   RR_K[q], c))
+        sum_gtk *= 1./L**3
+        return sum_gtr + sum_gtk
     else:
         return 0
 
@@ -987,8 +1027,9 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[Bt_c[0]:Bt_c[0]+3,
                       Bt_c[1]:Bt_c[1]+3] = np.array([[
-                          M12(i, j, r, s, a1, a2,
-                              X_lmn, num_X_points,
+                          M12(i, j, r, s, a1, a2, L,
+                              X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, s_lmn, erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
@@ -1001,7 +1042,8 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                               c, mu, s_lmn, erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn)
+            args = (r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, s_lmn, erfcs_lmn)
             for i in range(3):
                 Minfinity[Gt_c[0]+i,
                           Gt_c[1]:Gt_c[1]+5] = con_M13_row(i, args)
@@ -1043,12 +1085,14 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                 m_erfcs_lmn = [generate_erfcs(S, lamb) for S in m_s_lmn]
                 Minfinity[Bt21_c[0]:Bt21_c[0]+3,
                           Bt21_c[1]:Bt21_c[1]+3] = np.array([[
-                              M12(i, j, mr, s, a2, a1,
-                                  X_lmn, num_X_points,
+                              M12(i, j, mr, s, a2, a1, L,
+                                  X_lmn, K_lmn, Ks_lmn, RR_K,
+                                  num_X_points, num_K_points,
                                   c, mu, m_s_lmn, m_erfcs_lmn)
                               for j in range(3)] for i in range(3)])
 
-                args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu,
+                args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                        num_X_points, num_K_points, c, mu,
                         m_s_lmn, m_erfcs_lmn)
                 for i in range(3):
                     Minfinity[Gt21_c[0]+i,
@@ -1088,13 +1132,14 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[M24_c[0]:M24_c[0]+3,
                       M24_c[1]:M24_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a2, a1,
-                              X_lmn, num_X_points,
+                          M12(j, i, mr, s, a2, a1, L,
+                              X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu, m_s_lmn,
-                    m_erfcs_lmn)
+            args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, m_s_lmn, m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
                     M34_temp[i,j] = M13(j, *cond_idx[i], *args)
@@ -1123,12 +1168,14 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                           for j in range(3)] for i in range(3)])
             Minfinity[M25_c[0]:M25_c[0]+3,
                       M25_c[1]:M25_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a2, a1, X_lmn, num_X_points,
+                          M12(j, i, mr, s, a2, a1, L,
+                              X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu, m_s_lmn,
-                    m_erfcs_lmn)
+            args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, m_s_lmn, m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
                     M35_temp[i,j] = M13(j, *cond_idx[i], *args)
-- 
2.43.0


From 24aabbc17dc9d360496c1b2329ab43ddf94611cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:31:47 +0000
Subject: [PATCH 22/22] fix: name the offending pair in the size ratio check
 without going out of range

When only one ratio of a pair was missing from the table (0.3 and 3.0, where
only one of the two quotients rounds to a tabulated value), printing the error
message raised an IndexError. The message also took two rows of the list of
missing ratios instead of the row and column of one.
---
 stokesian_dynamics/functions/timestepping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index f68c5c5..2669b5a 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -164,13 +164,13 @@ def do_we_have_all_size_ratios(error, element_sizes, lam_range, num_spheres):
     offending_elements = np.where(do_we_have_it_matrix == 0)
     if len(offending_elements[0]) > 0:
         offending_lambda_1 = lambda_matrix[offending_elements[0][0],
-                                           offending_elements[0][1]]
+                                           offending_elements[1][0]]
         offending_element_str = np.empty(2, dtype='|S25')
         for i in (0, 1):
             offending_element_str[i] = (
-                f"dumbbell {str(offending_elements[0][i] - num_spheres)}"
-                if offending_elements[0][i] >= num_spheres
-                else f"sphere {str(offending_elements[0][i])}"
+                f"dumbbell {str(offending_elements[i][0] - num_spheres)}"
+                if offending_elements[i][0] >= num_spheres
+                else f"sphere {str(offending_elements[i][0])}"
             )
         print("ERROR")
         print(f"Element size ratio ({str(offending_lambda_1)} or "
-- 
2.43.0

