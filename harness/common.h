#ifndef H_COMMON_H
#define H_COMMON_H
#include <petsc.h>
#include <petscdmplex.h>
#include <tdycore.h>

/* Scalar fields, one per slot, described on the command line:
     -h_f_<slot> const:v | lin:a,bx,by,bz | hash:lo,hi,seed | lhash:lo,hi,seed
                | smooth:mean,amp,kx,ky,kz,ph | step:axis,pos,below,above
                | q:a,xx,yy,zz (quadratic) | hydro... (lin)
   evaluated in "reference" coordinates (the inverse of the rigid map -h_q/-h_t). */
enum { S_PORO, S_KXX, S_KXY, S_KXZ, S_KYY, S_KYZ, S_KZZ,
       S_TXX, S_TXY, S_TXZ, S_TYY, S_TYZ, S_TZZ,
       S_DXX, S_DXY, S_DXZ, S_DYY, S_DYZ, S_DZZ,
       S_SR, S_RHO, S_CP, S_MW, S_SRC, S_ESRC, S_PBC, S_PBCT, S_VBC, S_TBC, S_CBC,
       S_P, S_PP, S_T, S_TP, S_C, S_CP_, S_PD, S_TD, S_CD, S_N };
#define H_NB 3
extern int H_bank;
extern const char *slot_names[S_N];
extern PetscBool  H_has(int slot);
extern PetscReal  H_eval(int slot, const PetscReal *x, PetscInt state);
extern void       H_fields_from_options(void);
extern PetscErrorCode H_apply_materials(TDy tdy, PetscInt mode);
extern PetscErrorCode H_register(void);
PetscErrorCode H_apply_conditions(TDy tdy, PetscInt mode);
extern PetscErrorCode H_dm(MPI_Comm comm, void *ctx, DM *dm);
extern PetscErrorCode H_check_cells(TDy tdy);
PetscErrorCode H_dump_mesh(TDy tdy, PetscInt *bs);
extern PetscErrorCode H_dump_vec(const char *name, PetscInt state, Vec v);
extern PetscErrorCode H_dump_mat(const char *name, PetscInt state, Mat m);
extern PetscErrorCode H_dump_field_cells(TDy tdy, int slot, PetscInt state);
extern PetscErrorCode H_fill(TDy tdy, Vec v, PetscInt bs, const int *slots, PetscInt state);
extern PetscErrorCode H_fill_coord(TDy tdy, Vec v, PetscInt bs, PetscInt k);
extern FILE *H_out;
extern PetscErrorCode H_open(void);
extern PetscReal H_hash(const PetscReal *x, PetscInt n, PetscInt seed);
extern PetscErrorCode H_enum(const char *opt, const char *const *list, PetscInt *v);
#define HOUT(...) do { if (H_out) fprintf(H_out, __VA_ARGS__); } while (0)
PetscErrorCode H_dump_cells(TDy tdy);
PetscErrorCode H_dump_boundary(TDy tdy);
#endif
