"""Writes harness/fapi.F90: a Fortran program that carries out a script of library calls (twin of ctwin.c)."""
import os
NF, NG = 48, 40
body = []
w = body.append
w("""! written by tools/gen_fapi.py
module fapimod
#include <petsc/finclude/petsc.h>
#include <finclude/tdycore.h>
  use tdycore
  use petscdm
  use petscdmplex
  implicit none
  PetscReal :: fc(4,%d), gc(6,%d)
  PetscInt  :: fn(3)
  PetscInt  :: ncall(%d), npoint(%d), mcall(%d), wrongsize
contains
  subroutine fld(k, n, x, f, ierr)
    PetscInt,  intent(in)  :: k, n
    PetscReal, dimension(:), intent(in)  :: x
    PetscReal, dimension(:), intent(out) :: f
    PetscErrorCode, intent(out) :: ierr
    PetscInt :: i
    ncall(k) = ncall(k) + 1; npoint(k) = npoint(k) + n
    if (size(x) /= 3*n .or. size(f) /= n) wrongsize = wrongsize + 1
    do i = 1, n
      f(i) = fc(1,k) + fc(2,k)*x(3*i-2) + fc(3,k)*x(3*i-1) + fc(4,k)*x(3*i)
    end do
    ierr = 0
    if (k == %d) ierr = 77
  end subroutine
  subroutine ifld(k, n, x, f, ierr)
    PetscInt,  intent(in)  :: k, n
    PetscReal, dimension(:), intent(in)  :: x
    PetscInt,  dimension(:), intent(out) :: f
    PetscErrorCode, intent(out) :: ierr
    PetscInt :: i
    mcall(k) = mcall(k) + 1
    if (size(x) /= 3*n .or. size(f) /= n) wrongsize = wrongsize + 1
    do i = 1, n
      if (gc(1,k) + gc(2,k)*x(3*i-2) + gc(3,k)*x(3*i-1) + gc(4,k)*x(3*i) > 0.d0) then
        f(i) = int(gc(5,k))
      else
        f(i) = int(gc(6,k))
      end if
    end do
    ierr = 0
  end subroutine""" % (NF, NG, NF, NF, NG, NF))
for k in range(1, NF + 1):
    w("""  subroutine f%d(n, x, f, ierr)
    PetscInt,  intent(in)  :: n
    PetscReal, dimension(:), intent(in)  :: x
    PetscReal, dimension(:), intent(out) :: f
    PetscErrorCode, intent(out) :: ierr
    call fld(%d, n, x, f, ierr)
  end subroutine""" % (k, k))
for k in range(1, NG + 1):
    w("""  subroutine g%d(n, x, f, ierr)
    PetscInt,  intent(in)  :: n
    PetscReal, dimension(:), intent(in)  :: x
    PetscInt,  dimension(:), intent(out) :: f
    PetscErrorCode, intent(out) :: ierr
    call ifld(%d, n, x, f, ierr)
  end subroutine""" % (k, k))
w("""  function pick(k) result(p)
    PetscInt, intent(in) :: k
    procedure(TDySpatialFunction), pointer :: p
    select case (k)""")
for k in range(1, NF + 1):
    w("    case (%d)\n      p => f%d" % (k, k))
w("""    case default
      p => null()
    end select
  end function
  subroutine settype(tdy, k, ierr)
    TDy :: tdy
    PetscInt, intent(in) :: k
    PetscErrorCode :: ierr
    select case (k)""")
for k in range(1, NG + 1):
    w("    case (%d)\n      call TDySetBoundaryPressureTypeFunction(tdy, g%d, ierr)" % (k, k))
w("""    end select
  end subroutine
  subroutine makedm(comm, dm, ierr)
    MPI_Comm :: comm
    DM :: dm
    PetscErrorCode :: ierr
    PetscReal :: lower(3), upper(3)
    lower = (/ 0.d0, 0.d0, 0.d0 /)
    upper = (/ 1.d0*fn(1), 2.d0*fn(2), 0.5d0*fn(3) /)
    call DMPlexCreateBoxMesh(PETSC_COMM_WORLD, 3, PETSC_FALSE, fn, lower, upper, PETSC_NULL_INTEGER, PETSC_TRUE, dm, ierr)
  end subroutine
end module fapimod

program main
#include <petsc/finclude/petsc.h>
#include <finclude/tdycore.h>
  use tdycore
  use petscvec
  use petscdm
  use petscsnes
  use petscts
  use fapimod
  use, intrinsic :: iso_c_binding
  implicit none
  interface
    integer(c_int) function push(handler, ctx) bind(c, name="PetscPushErrorHandler")
      use, intrinsic :: iso_c_binding
      type(c_funptr), value :: handler
      type(c_ptr), value :: ctx
    end function
    subroutine return_handler() bind(c, name="PetscReturnErrorHandler")
    end subroutine
  end interface
  integer, parameter :: MAXD = 4
  TDy  :: tdys(MAXD)
  Vec  :: U(MAXD), F, D, N, Ud
  Mat  :: J(MAXD), M
  SNES :: sn(MAXD)
  TS   :: tsx
  DM   :: dm
  PetscViewer :: viewer
  SNESConvergedReason :: reason
  procedure(TDySpatialFunction), pointer :: p
  PetscErrorCode :: ierr, e2
  PetscMPIInt :: rank
  PetscInt :: i, k, cnt, line, ios, s, dim
  PetscBool :: flg
  PetscReal :: v, perm(9)
  character(len=256) :: script, text
  character(len=32) :: op, name, tag
  PetscScalar, pointer :: arr(:)

  call TDyInit(ierr)
  e2 = push(c_funloc(return_handler), c_null_ptr)
  call MPI_Comm_rank(PETSC_COMM_WORLD, rank, e2)
  fc = 0.d0; gc = 0.d0; ncall = 0; npoint = 0; mcall = 0; wrongsize = 0
  open(unit=18, file='coef', status='old')
  read(18, *) fc
  read(18, *) gc
  close(18)
  cnt = 3; call PetscOptionsGetIntArray(PETSC_NULL_OPTIONS, PETSC_NULL_CHARACTER, '-f_n', fn, cnt, flg, e2)
  call PetscOptionsGetString(PETSC_NULL_OPTIONS, PETSC_NULL_CHARACTER, '-f_script', script, flg, e2)
  open(unit=17, file=trim(script), status='old')
  line = 0; s = 1
  do
    read(17, '(a)', iostat=ios) text
    if (ios /= 0) exit
    line = line + 1
    read(text, *) s, op
    s = s + 1
    k = 0; v = 0.d0; name = ' '; ierr = 0
    write(tag, '(i0)') line
    select case (op)
    case ('create'); call TDyCreate(tdys(s), ierr)
    case ('mode', 'disc', 'dens', 'gmat', 'bct', 'poro', 'pbc', 'src', 'esrc', 'vbc', 'sr', 'pbct')
      read(text, *) i, op, k
      select case (op)
      case ('mode'); call TDySetMode(tdys(s), k, ierr)
      case ('disc'); call TDySetDiscretization(tdys(s), k, ierr)
      case ('dens'); call TDySetWaterDensityType(tdys(s), k, ierr)
      case ('gmat'); call TDyMPFAOSetGmatrixMethod(tdys(s), k, ierr)
      case ('bct');  call TDyMPFAOSetBoundaryConditionType(tdys(s), k, ierr)
      case ('pbct'); call settype(tdys(s), k, ierr)
      case default
        p => pick(k)
        select case (op)
        case ('poro'); call TDySetPorosityFunction(tdys(s), p, ierr)
        case ('pbc');  call TDySetBoundaryPressureFunction(tdys(s), p, ierr)
        case ('src');  call TDySetForcingFunction(tdys(s), p, ierr)
        case ('esrc'); call TDySetEnergyForcingFunction(tdys(s), p, ierr)
        case ('vbc');  call TDySetBoundaryVelocityFunction(tdys(s), p, ierr)
        case ('sr');   call TDySetResidualSaturationFunction(tdys(s), p, ierr)
        end select
      end select
    case ('reg')
      read(text, *) i, op, name, k
      p => pick(k)
      ierr = 55
      call TDyRegisterFunction(trim(name), p, ierr)
    case ('selporo', 'selpbc', 'selsrc', 'selesrc', 'selvbc')
      read(text, *) i, op, name
      ierr = 55
      select case (op)
      case ('selporo'); call TDySelectPorosityFunction(tdys(s), trim(name), ierr)
      case ('selpbc');  call TDySelectBoundaryPressureFunction(tdys(s), trim(name), ierr)
      case ('selsrc');  call TDySelectForcingFunction(tdys(s), trim(name), ierr)
      case ('selesrc'); call TDySelectEnergyForcingFunction(tdys(s), trim(name), ierr)
      case ('selvbc');  call TDySelectBoundaryVelocityFunction(tdys(s), trim(name), ierr)
      end select
    case ('cporo'); read(text, *) i, op, v; call TDySetConstantPorosity(tdys(s), v, ierr)
    case ('csr');   read(text, *) i, op, v; call TDySetConstantResidualSaturation(tdys(s), v, ierr)
    case ('cperm'); read(text, *) i, op, perm; call TDySetConstantTensorPermeability(tdys(s), perm, ierr)
    case ('ctor');  call TDySetDMConstructor(tdys(s), makedm, ierr)
    case ('fromopt'); call TDySetFromOptions(tdys(s), ierr)
    case ('setup');   call TDySetup(tdys(s), ierr)
    case ('driver');  call TDyDriverInitializeTDy(tdys(s), ierr)
    case ('vectors'); call TDyCreateVectors(tdys(s), ierr)
    case ('jac');     call TDyCreateJacobian(tdys(s), ierr)
    case ('dim')
      call TDyGetDM(tdys(s), dm, ierr)
      call DMGetDimension(dm, dim, e2)
      if (rank == 0) write(*, '(a,i0,a,i0)') '@D ', line, ' ', dim
    case ('ic')
      read(text, *) i, op, name
      call TDyCreatePrognosticVector(tdys(s), U(s), ierr)
      call VecDuplicate(U(s), N, e2)
      call PetscViewerBinaryOpen(PETSC_COMM_WORLD, trim(name), FILE_MODE_READ, viewer, e2)
      call VecLoad(N, viewer, e2)
      call PetscViewerDestroy(viewer, e2)
      call TDySetInitialCondition(tdys(s), N, ierr)
      if (ierr == 0) call TDyGetInitialCondition(tdys(s), U(s), ierr)
      call dump(U(s))
      call VecDestroy(N, e2)
    case ('snes')
      call SNESCreate(PETSC_COMM_WORLD, sn(s), e2)
      call TDySetSNESFunction(sn(s), tdys(s), ierr)
      if (ierr == 0) call TDySetSNESJacobian(sn(s), tdys(s), ierr)
      call SNESSetFromOptions(sn(s), e2)
    case ('dt');    read(text, *) i, op, v; call TDySetDtimeForSNESSolver(tdys(s), v, ierr)
    case ('pre');   call TDyPreSolveSNESSolver(tdys(s), ierr)
    case ('resid')
      call VecDuplicate(U(s), F, e2)
      call SNESComputeFunction(sn(s), U(s), F, ierr)
      call dump(F)
      call VecDestroy(F, e2)
    case ('matrix')
      call TDyCreateMatrix(tdys(s), J(s), ierr)
      if (ierr == 0) call SNESComputeJacobian(sn(s), U(s), J(s), J(s), ierr)
      if (ierr == 0) call dumpmat(J(s))
      call MatDestroy(J(s), e2)
    case ('ts')
      call VecDuplicate(U(s), F, e2); call VecDuplicate(U(s), Ud, e2)
      v = 0.125d0; call VecSet(Ud, v, e2)
      call TSCreate(PETSC_COMM_WORLD, tsx, e2)
      call TDySetIFunction(tsx, tdys(s), ierr)
      if (ierr == 0) call TDySetIJacobian(tsx, tdys(s), ierr)
      v = 0.d0
      if (ierr == 0) call TSComputeIFunction(tsx, v, U(s), Ud, F, PETSC_FALSE, ierr)
      call dump(F)
      call TSDestroy(tsx, e2); call VecDestroy(F, e2); call VecDestroy(Ud, e2)
    case ('solve')
      call SNESSolve(sn(s), PETSC_NULL_VEC, U(s), ierr)
      call SNESGetConvergedReason(sn(s), reason, e2)
      if (rank == 0) write(*, '(a,i0,a,i0)') '@R ', line, ' ', reason
      call dump(U(s))
    case ('post');  call TDyPostSolve(tdys(s), U(s), ierr)
    case ('diag'); call TDyUpdateDiagnostics(tdys(s), ierr)
    case ('sat', 'mass', 'pres')
      call TDyCreateDiagnosticVector(tdys(s), D, ierr)
      if (ierr == 0) then
        if (op == 'sat')  call TDyGetLiquidSaturation(tdys(s), D, ierr)
        if (op == 'mass') call TDyGetLiquidMass(tdys(s), D, ierr)
        if (op == 'pres') call TDyGetLiquidPressure(tdys(s), D, ierr)
        call dump(D)
        call VecDestroy(D, e2)
      end if
    case ('nat')
      call VecDuplicate(U(s), N, e2)
      call TDyGlobalToNatural(tdys(s), U(s), N, ierr)
      call dump(N)
      call VecDestroy(N, e2)
    case ('state')
      call VecGetArrayF90(U(s), arr, e2)
      k = size(arr)
      call TDyUpdateState(tdys(s), arr, k, ierr)
      call VecRestoreArrayF90(U(s), arr, e2)
    case ('setdt'); read(text, *) i, op, v; call TDyTimeIntegratorSetTimeStep(tdys(s), v, ierr)
    case ('run');   read(text, *) i, op, v; call TDyTimeIntegratorRunToTime(tdys(s), v, ierr)
    case ('treg');  call TDyTimeIntegratorOutputRegression(tdys(s), ierr)
    case ('oreg');  call TDyOutputRegression(tdys(s), U(s), ierr)
    case ('destroy'); call TDyDestroy(tdys(s), ierr)
    case ('finalize')
      exit
    case default
      if (rank == 0) write(*, '(a,a)') '@? ', trim(op)
    end select
    if (rank == 0) write(*, '(a,i0,a,a,a,i0)') '@C ', line, ' ', trim(op), ' ', ierr
  end do
  close(17)
  do k = 1, %d
    if (ncall(k) > 0) write(*, '(a,4(i0,1x))') '@N ', rank, k, ncall(k), npoint(k)
  end do
  do k = 1, %d
    if (mcall(k) > 0) write(*, '(a,3(i0,1x))') '@I ', rank, k, mcall(k)
  end do
  write(*, '(a,i0,1x,i0)') '@S ', rank, wrongsize
  flush(6)
  call TDyFinalize(ierr)
  if (rank == 0) write(*, '(a,i0)') '@DONE ', ierr
contains
  subroutine dump(x)
    Vec :: x
    PetscViewer :: vw
    PetscErrorCode :: e
    call PetscViewerBinaryOpen(PETSC_COMM_WORLD, 'v'//trim(tag)//'.bin', FILE_MODE_WRITE, vw, e)
    call VecView(x, vw, e)
    call PetscViewerDestroy(vw, e)
  end subroutine
  subroutine dumpmat(x)
    Mat :: x
    PetscViewer :: vw
    PetscErrorCode :: e
    call PetscViewerBinaryOpen(PETSC_COMM_WORLD, 'm'//trim(tag)//'.bin', FILE_MODE_WRITE, vw, e)
    call MatView(x, vw, e)
    call PetscViewerDestroy(vw, e)
  end subroutine
end program main""" % (NF, NG))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(here + "/harness/fapi.F90", "w").write("\n".join(body) + "\n")
