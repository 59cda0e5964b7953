#!/usr/bin/env python3
"""Writes harness/f90fn.F90: the Fortran functions and subroutines of the C22 harness."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NS, NI = 40, 36
L = ['! Written by tools/mkf90.py.', 'module vh_f90', '#include <petsc/finclude/petscsys.h>', '  use iso_c_binding', '  use tdycore', '  implicit none',
     '  type(tTDy) :: dy(8)', 'contains']
def fn(name, kind, body):
    L.extend(['  subroutine %s(n, x, f, ierr)' % name, '    PetscInt, intent(in) :: n', '    PetscReal, dimension(:), intent(in) :: x',
              '    %s, dimension(:), intent(out) :: f' % kind, '    PetscErrorCode, intent(out) :: ierr', '    PetscInt :: i', '    do i = 1, n'] + ['      ' + b for b in body] + ['    end do', '    ierr = %d' % (77 if name == 's%d' % NS else 0), '  end subroutine'])
for k in range(1, NS + 1): fn('s%d' % k, 'PetscReal', ['f(i) = %d + x(3*i-2)' % (1000 * k)])
for k in (41, 42): fn('v%d' % k, 'PetscReal', ['f(3*i-2) = %d + x(3*i-2)' % (1000 * k), 'f(3*i-1) = %d + x(3*i-2)' % (1000 * k + 40), 'f(3*i) = %d + x(3*i-2)' % (1000 * k + 80)])
for k in (51, 52): fn('t%d' % k, 'PetscReal', ['f(9*i-%d) = %d + x(3*i-2)' % (8 - c, 1000 * k + 10 * c) for c in range(9)])
for k in range(1, NI + 1): fn('i%d' % k, 'PetscInt', ['f(i) = %d + int(x(3*i-2))' % (10 * k)])
L.append('  subroutine pick(k, p)\n    integer(c_int), intent(in) :: k\n    procedure(TDySpatialFunction), pointer :: p\n    select case (k)')
for k in range(1, NS + 1): L.append('    case (%d)\n      p => s%d' % (k, k))
for k in (41, 42): L.append('    case (%d)\n      p => v%d' % (k, k))
for k in (51, 52): L.append('    case (%d)\n      p => t%d' % (k, k))
L.append('    end select\n  end subroutine')
L.append('''  subroutine str(c, n, s)
    integer(c_int), intent(in) :: n
    character(kind=c_char), intent(in) :: c(*)
    character(len=n), intent(out) :: s
    integer :: i
    do i = 1, n
      s(i:i) = c(i)
    end do
  end subroutine
  function fh_new(d) bind(c) result(ierr)
    integer(c_int), value :: d
    integer(c_int) :: ierr
    call TDyCreate(dy(d), ierr)
    if (ierr == 0) call TDySetMode(dy(d), RICHARDS, ierr)
    if (ierr == 0) call TDySetDiscretization(dy(d), MPFA_O, ierr)
    if (ierr == 0) call TDySetFromOptions(dy(d), ierr)
  end function
  function fh_ptr(d) bind(c) result(p)
    integer(c_int), value :: d
    type(c_ptr) :: p
    p = transfer(dy(d)%v, p)
  end function
  function fh_set(d, q, k) bind(c) result(ierr)
    integer(c_int), value :: d, q, k
    integer(c_int) :: ierr
    procedure(TDySpatialFunction), pointer :: p
    p => null()
    if (q /= 7) call pick(k, p)
    ierr = 12345
    select case (q)
    case (1)
      call TDySetPorosityFunction(dy(d), p, ierr)
    case (2)
      call TDySetResidualSaturationFunction(dy(d), p, ierr)
    case (3)
      call TDySetForcingFunction(dy(d), p, ierr)
    case (4)
      call TDySetEnergyForcingFunction(dy(d), p, ierr)
    case (5)
      call TDySetBoundaryPressureFunction(dy(d), p, ierr)
    case (6)
      call TDySetBoundaryVelocityFunction(dy(d), p, ierr)
    case (7)
      select case (k)''')
for k in range(1, NI + 1): L.append('      case (%d)\n        call TDySetBoundaryPressureTypeFunction(dy(d), i%d, ierr)' % (k, k))
L.append('''      end select
    end select
  end function
  function fh_const(d, q, k) bind(c) result(ierr)
    integer(c_int), value :: d, q, k
    integer(c_int) :: ierr
    PetscReal :: v, t(9)
    integer :: i
    v = k
    do i = 1, 9
      t(i) = 10*k + i
    end do
    ierr = 12345
    select case (q)
    case (1)
      call TDySetConstantPorosity(dy(d), v, ierr)
    case (2)
      call TDySetConstantResidualSaturation(dy(d), v, ierr)
    case (8)
      call TDySetConstantTensorPermeability(dy(d), t, ierr)
    end select
  end function
  function fh_reg(c, n, k) bind(c) result(ierr)
    character(kind=c_char), intent(in) :: c(*)
    integer(c_int), value :: n, k
    integer(c_int) :: ierr
    procedure(TDySpatialFunction), pointer :: p
    character(len=n) :: s
    call str(c, n, s)
    call pick(k, p)
    ierr = 0
    call TDyRegisterFunction(s, p, ierr)
  end function
  function fh_sel(d, q, c, n) bind(c) result(ierr)
    integer(c_int), value :: d, q, n
    character(kind=c_char), intent(in) :: c(*)
    integer(c_int) :: ierr
    character(len=n) :: s
    call str(c, n, s)
    ierr = 12345
    select case (q)
    case (1)
      call TDySelectPorosityFunction(dy(d), s, ierr)
    case (3)
      call TDySelectForcingFunction(dy(d), s, ierr)
    case (4)
      call TDySelectEnergyForcingFunction(dy(d), s, ierr)
    case (5)
      call TDySelectBoundaryPressureFunction(dy(d), s, ierr)
    case (6)
      call TDySelectBoundaryVelocityFunction(dy(d), s, ierr)
    end select
  end function
end module''')
open(os.path.join(V, 'harness', 'f90fn.F90'), 'w').write('\n'.join(L) + '\n')
