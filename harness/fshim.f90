! The Fortran interface, called from Fortran through the library's own modules.
module vf_fshim
  use iso_c_binding
  use fft3d_wrap
  use fft2d_wrap
  use remap3d_wrap
  use remap2d_wrap
  implicit none
contains
  subroutine fs_create(k, comm, prec, p) bind(c)
    integer(c_int), value :: k, comm, prec
    type(c_ptr) :: p
    select case (k)
    case (0); call fft3d_create(comm, prec, p)
    case (1); call fft2d_create(comm, prec, p)
    case (2); call remap3d_create(comm, p)
    case default; call remap2d_create(comm, p)
    end select
  end subroutine
  subroutine fs_destroy(k, p) bind(c)
    integer(c_int), value :: k
    type(c_ptr), value :: p
    select case (k)
    case (0); call fft3d_destroy(p)
    case (1); call fft2d_destroy(p)
    case (2); call remap3d_destroy(p)
    case default; call remap2d_destroy(p)
    end select
  end subroutine
  subroutine fs_set(k, p, key, v) bind(c)
    integer(c_int), value :: k, v
    type(c_ptr), value :: p
    character(c_char) :: key(*)
    select case (k)
    case (0); call fft3d_set(p, key, v)
    case (1); call fft2d_set(p, key, v)
    case (2); call remap3d_set(p, key, v)
    case default; call remap2d_set(p, key, v)
    end select
  end subroutine
  ! tile indices arrive 0-based here and are passed on 1-based
  subroutine fs_setup(k, p, d, i, o, nqty, perm, mem, s) bind(c)
    integer(c_int), value :: k, nqty, perm, mem
    type(c_ptr), value :: p
    integer(c_int) :: d(3), i(6), o(6), s(3)
    select case (k)
    case (0)
      call fft3d_setup(p, d(1), d(2), d(3), i(1)+1, i(2)+1, i(3)+1, i(4)+1, i(5)+1, i(6)+1, &
        o(1)+1, o(2)+1, o(3)+1, o(4)+1, o(5)+1, o(6)+1, perm, s(1), s(2), s(3))
    case (1)
      call fft2d_setup(p, d(1), d(2), i(1)+1, i(2)+1, i(3)+1, i(4)+1, o(1)+1, o(2)+1, o(3)+1, o(4)+1, perm, s(1), s(2), s(3))
    case (2)
      call remap3d_setup(p, i(1)+1, i(2)+1, i(3)+1, i(4)+1, i(5)+1, i(6)+1, &
        o(1)+1, o(2)+1, o(3)+1, o(4)+1, o(5)+1, o(6)+1, nqty, perm, mem, s(2), s(3))
    case default
      call remap2d_setup(p, i(1)+1, i(2)+1, i(3)+1, i(4)+1, o(1)+1, o(2)+1, o(3)+1, o(4)+1, nqty, perm, mem, s(2), s(3))
    end select
  end subroutine
  subroutine fs_tune(k, p, d, i, o, perm, s, flag, niter, tmax, tflag) bind(c)
    integer(c_int), value :: k, perm, flag, niter, tflag
    real(c_double), value :: tmax
    type(c_ptr), value :: p
    integer(c_int) :: d(3), i(6), o(6), s(3)
    if (k == 0) then
      call fft3d_tune(p, d(1), d(2), d(3), i(1)+1, i(2)+1, i(3)+1, i(4)+1, i(5)+1, i(6)+1, &
        o(1)+1, o(2)+1, o(3)+1, o(4)+1, o(5)+1, o(6)+1, perm, s(1), s(2), s(3), flag, niter, tmax, tflag)
    else
      call fft2d_tune(p, d(1), d(2), i(1)+1, i(2)+1, i(3)+1, i(4)+1, o(1)+1, o(2)+1, o(3)+1, o(4)+1, perm, &
        s(1), s(2), s(3), flag, niter, tmax, tflag)
    end if
  end subroutine
  subroutine fs_setup_memory(k, p, s, r) bind(c)
    integer(c_int), value :: k
    type(c_ptr), value :: p, s, r
    real(c_float), pointer :: a(:), b(:)
    type(c_ptr) :: sp, rp
    ! as the documentation: the buffers are passed as c_loc(array)
    call c_f_pointer(s, a, [1]); call c_f_pointer(r, b, [1])
    sp = c_loc(a); rp = c_loc(b)
    if (k == 0) then
      call fft3d_setup_memory(p, sp, rp)
    else
      call fft2d_setup_memory(p, sp, rp)
    end if
  end subroutine
  subroutine fs_compute(k, p, i, o, flag) bind(c)
    integer(c_int), value :: k, flag
    type(c_ptr), value :: p, i, o
    if (k == 0) then
      call fft3d_compute(p, i, o, flag)
    else
      call fft2d_compute(p, i, o, flag)
    end if
  end subroutine
  subroutine fs_only_1d(k, p, i, flag) bind(c)
    integer(c_int), value :: k, flag
    type(c_ptr), value :: p, i
    if (k == 0) then
      call fft3d_only_1d_ffts(p, i, flag)
    else
      call fft2d_only_1d_ffts(p, i, flag)
    end if
  end subroutine
  subroutine fs_only_remaps(k, p, i, o, flag) bind(c)
    integer(c_int), value :: k, flag
    type(c_ptr), value :: p, i, o
    if (k == 0) then
      call fft3d_only_remaps(p, i, o, flag)
    else
      call fft2d_only_remaps(p, i, o, flag)
    end if
  end subroutine
  subroutine fs_only_one(k, p, i, o, flag, which) bind(c)
    integer(c_int), value :: k, flag, which
    type(c_ptr), value :: p, i, o
    if (k == 0) then
      call fft3d_only_one_remap(p, i, o, flag, which)
    else
      call fft2d_only_one_remap(p, i, o, flag, which)
    end if
  end subroutine
  subroutine fs_remap(k, p, i, o, s, r) bind(c)
    integer(c_int), value :: k
    type(c_ptr), value :: p, i, o, s, r
    if (k == 2) then
      call remap3d_remap(p, i, o, s, r)
    else
      call remap2d_remap(p, i, o, s, r)
    end if
  end subroutine
  function fs_get_int(k, p, key) bind(c) result(v)
    integer(c_int), value :: k
    type(c_ptr), value :: p
    character(c_char) :: key(*)
    integer(c_int) :: v
    if (k == 0) then
      v = fft3d_get_int(p, key)
    else
      v = fft2d_get_int(p, key)
    end if
  end function
  function fs_get_double(k, p, key) bind(c) result(v)
    integer(c_int), value :: k
    type(c_ptr), value :: p
    character(c_char) :: key(*)
    real(c_double) :: v
    if (k == 0) then
      v = fft3d_get_double(p, key)
    else
      v = fft2d_get_double(p, key)
    end if
  end function
  function fs_get_int64(k, p, key) bind(c) result(v)
    integer(c_int), value :: k
    type(c_ptr), value :: p
    character(c_char) :: key(*)
    integer(c_int64_t) :: v
    if (k == 0) then
      v = fft3d_get_int64(p, key)
    else
      v = fft2d_get_int64(p, key)
    end if
  end function
  subroutine fs_get_string(k, p, key, len, v) bind(c)
    integer(c_int), value :: k
    type(c_ptr), value :: p
    character(c_char) :: key(*)
    integer(c_int) :: len
    type(c_ptr) :: v
    if (k == 0) then
      v = fft3d_get_string(p, key, len)
    else
      v = fft2d_get_string(p, key, len)
    end if
  end subroutine
  subroutine fs_get_int_vector(k, p, key, len, v) bind(c)
    integer(c_int), value :: k
    type(c_ptr), value :: p
    character(c_char) :: key(*)
    integer(c_int) :: len
    type(c_ptr) :: v
    if (k == 0) then
      v = fft3d_get_int_vector(p, key, len)
    else
      v = fft2d_get_int_vector(p, key, len)
    end if
  end subroutine
  subroutine fs_get_double_vector(k, p, key, len, v) bind(c)
    integer(c_int), value :: k
    type(c_ptr), value :: p
    character(c_char) :: key(*)
    integer(c_int) :: len
    type(c_ptr) :: v
    if (k == 0) then
      v = fft3d_get_double_vector(p, key, len)
    else
      v = fft2d_get_double_vector(p, key, len)
    end if
  end subroutine
end module
