/* Dump the finite-volume mesh TDycore derives from a DM (its own data structure), next to the DM's geometry. */
#include "common.h"
#include <private/tdycoreimpl.h>
#include <private/tdympfaoimpl.h>
#include <private/tdyfvtpfimpl.h>

int main(int argc, char **argv) {
  PetscErrorCode ierr; TDy tdy; PetscInt disc = MPFA_O;
  ierr = TDyInit(argc, argv); CHKERRQ(ierr);
  H_fields_from_options();
  ierr = H_open(); CHKERRQ(ierr);
  ierr = H_enum("-h_disc", TDyDiscretizations, &disc); CHKERRQ(ierr);
  ierr = TDyCreate(PETSC_COMM_WORLD, &tdy); CHKERRQ(ierr);
  ierr = TDySetMode(tdy, RICHARDS); CHKERRQ(ierr);
  ierr = TDySetDiscretization(tdy, (TDyDiscretization)disc); CHKERRQ(ierr);
  PetscBool nodm = PETSC_FALSE; PetscOptionsHasName(NULL,NULL,"-h_nodm",&nodm);
  if (!nodm) { ierr = TDySetDMConstructor(tdy, NULL, H_dm); CHKERRQ(ierr); }
  ierr = TDySetFromOptions(tdy); CHKERRQ(ierr);
  ierr = H_check_cells(tdy); CHKERRQ(ierr);
  ierr = H_apply_materials(tdy, RICHARDS); CHKERRQ(ierr);
  ierr = H_apply_conditions(tdy, RICHARDS); CHKERRQ(ierr);
  ierr = TDySetup(tdy); CHKERRQ(ierr);
  if (!nodm) { ierr = H_dump_mesh(tdy, NULL); CHKERRQ(ierr); ierr = H_dump_cells(tdy); CHKERRQ(ierr); ierr = H_dump_boundary(tdy); CHKERRQ(ierr); }
  TDyMesh *m = disc == FV_TPF ? ((TDyFVTPF*)tdy->context)->mesh : ((TDyMPFAO*)tdy->context)->mesh;
  HOUT("X MESH %d %d %d %d\n", (int)m->num_cells, (int)m->num_faces, (int)m->num_vertices, (int)m->num_boundary_faces);
  for (PetscInt i = 0; i < m->num_vertices; i++) {
    TDyVertex *v = &m->vertices;
    HOUT("X MV %d %d %.17g %.17g %.17g", (int)i, (int)v->is_local[i], v->coordinate[i].X[0], v->coordinate[i].X[1], v->coordinate[i].X[2]);
    for (PetscInt k = 0; k < v->num_internal_cells[i]; k++) HOUT(" %d", (int)v->internal_cell_ids[v->internal_cell_offset[i]+k]);
    HOUT(" |");
    for (PetscInt k = 0; k < v->num_faces[i]; k++) HOUT(" %d", (int)v->face_ids[v->face_offset[i]+k]);
    HOUT("\n");
  }
  for (PetscInt i = 0; i < m->num_cells; i++) {
    TDyCell *c = &m->cells;
    HOUT("X MC %d %d %d %d %.17g %.17g %.17g %.17g", (int)i, (int)c->is_local[i], (int)c->global_id[i], (int)c->natural_id[i],
         c->centroid[i].X[0], c->centroid[i].X[1], c->centroid[i].X[2], c->volume[i]);
    for (PetscInt k = 0; k < c->num_vertices[i]; k++) HOUT(" %d", (int)c->vertex_ids[c->vertex_offset[i]+k]);
    HOUT(" |");
    for (PetscInt k = 0; k < c->num_faces[i]; k++) HOUT(" %d", (int)c->face_ids[c->face_offset[i]+k]);
    HOUT(" | %d\n", (int)c->num_subcells[i]);
  }
  for (PetscInt i = 0; i < m->num_faces; i++) {
    TDyFace *f = &m->faces;
    PetscInt *cc = f->cell_ids + f->cell_offset[i];
    HOUT("X MF %d %d %d %d %d %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g", (int)i, (int)f->is_local[i], (int)f->is_internal[i], (int)f->bc_type[i], (int)cc[0], (int)cc[1],
         f->area[i], f->normal[i].V[0], f->normal[i].V[1], f->normal[i].V[2], f->centroid[i].X[0], f->centroid[i].X[1], f->centroid[i].X[2]);
    HOUT(" %.17g %.17g %.17g %.17g %.17g %.17g %.17g", f->dist_up_dn[i][0], f->dist_up_dn[i][1], f->dist_wt_up[i], f->unit_vec_up_dn[i][0], f->unit_vec_up_dn[i][1], f->unit_vec_up_dn[i][2], f->projected_area[i]);
    for (PetscInt k = 0; k < f->num_vertices[i]; k++) HOUT(" %d", (int)f->vertex_ids[f->vertex_offset[i]+k]);
    HOUT("\n");
  }
  if (disc != FV_TPF) for (PetscInt c = 0; c < m->num_cells; c++) for (PetscInt q = 0; q < m->cells.num_subcells[c]; q++) {
    TDySubcell *s = &m->subcells;
    PetscInt i = c*m->cells.num_subcells[c]+q;
    HOUT("X MS %d %d %.17g %d", (int)i, (int)c, s->T[i], (int)s->num_nu_vectors[i]);
    for (PetscInt k = 0; k < s->num_nu_vectors[i]; k++) {
      PetscInt o = s->face_offset[i]+k, n = s->nu_vector_offset[i]+k;
      HOUT(" %d %.17g %d %.17g %.17g %.17g", (int)s->face_ids[o], s->face_area[o], (int)s->is_face_up[o], s->nu_vector[n].V[0], s->nu_vector[n].V[1], s->nu_vector[n].V[2]);
      HOUT(" %.17g %.17g %.17g", s->variable_continuity_coordinates[n].X[0], s->variable_continuity_coordinates[n].X[1], s->variable_continuity_coordinates[n].X[2]);
    }
    HOUT("\n");
  }
  HOUT("DONE\n");
  ierr = TDyDestroy(&tdy); CHKERRQ(ierr);
  if (H_out) fclose(H_out);
  ierr = TDyFinalize(); CHKERRQ(ierr);
  return 0;
}
