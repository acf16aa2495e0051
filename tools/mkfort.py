# writes app/fortran.f90.in, the program that drives the Fortran interface (@B@ stands for the backend)
import itertools, os
o = []
o.append("""! written by tools/mkfort.py: a Fortran program that uses the module heffte_@B@ the way the documentation does
module drive_@B@
 use, intrinsic :: ISO_C_BINDING
 use heffte_@B@
 implicit none
 private
 type :: holder
  type(heffte_fft3d_@B@) :: c, calias
  type(heffte_fft3d_r2c_@B@) :: r, ralias
  integer :: kind = 0
  logical :: alias = .false.
 end type
contains
function h_new(kind) bind(C, name="vf_@B@_new") result(p)
 integer(C_INT), value :: kind
 type(C_PTR) :: p
 type(holder), pointer :: h
 allocate(h)
 h%kind = kind
 p = c_loc(h)
end function
subroutine h_free(p) bind(C, name="vf_@B@_free")
 type(C_PTR), value :: p
 type(holder), pointer :: h
 call c_f_pointer(p, h)
 deallocate(h)
end subroutine
subroutine h_create(p, form, il, ih, io, ol, oh, oo, dir, comm, reorder, alg, pencils) bind(C, name="vf_@B@_create")
 type(C_PTR), value :: p
 integer(C_INT), value :: form, dir, comm, reorder, alg, pencils
 integer(C_INT), intent(in) :: il(3), ih(3), io(3), ol(3), oh(3), oo(3)
 type(holder), pointer :: h
 integer :: fcomm
 logical :: lr, lp
 call c_f_pointer(p, h)
 fcomm = comm
 lr = reorder /= 0
 lp = pencils /= 0
 if (h%kind == 0) then""")
def ctor(t, r2c):
    d = "dir, " if r2c else ""
    for f, order, opt in ((0, 0, 0), (1, 1, 0), (2, 1, 1)):
        a = "il(1), il(2), il(3), ih(1), ih(2), ih(3), " + ("io(1), io(2), io(3), " if order else "") + "&\n     ol(1), ol(2), ol(3), oh(1), oh(2), oh(3), " + ("oo(1), oo(2), oo(3), " if order else "") + d + "fcomm" + (", lr, alg, lp" if opt else "")
        o.append("  %sif (form == %d) then\n   h%%%s = heffte_fft3d_%s@B@(%s)" % ("else " if f else "", f, t, "r2c_" if r2c else "", a))
    o.append("  end if")
ctor("c", False)
o.append(" else")
ctor("r", True)
o.append(""" end if
end subroutine
subroutine h_alias(p, mode) bind(C, name="vf_@B@_alias")
 ! 0: another name for the plan, 1: assigned to itself, 2: the other name is given up
 type(C_PTR), value :: p
 integer(C_INT), value :: mode
 type(holder), pointer :: h
 call c_f_pointer(p, h)
 if (mode == 0) then
  if (h%kind == 0) then
   h%calias = h%c
  else
   h%ralias = h%r
  end if
  h%alias = .true.
 else if (mode == 1) then
  if (h%kind == 0) then
   h%c = h%c
  else
   h%r = h%r
  end if
 else
  call h%calias%release()
  call h%ralias%release()
  h%alias = .false.
 end if
end subroutine
subroutine h_release(p) bind(C, name="vf_@B@_release")
 type(C_PTR), value :: p
 type(holder), pointer :: h
 call c_f_pointer(p, h)
 call h%c%release()
 call h%r%release()
end subroutine
function h_size(p, what) bind(C, name="vf_@B@_size") result(n)
 type(C_PTR), value :: p
 integer(C_INT), value :: what
 integer(C_LONG_LONG) :: n
 type(holder), pointer :: h
 call c_f_pointer(p, h)
 n = -1
 if (h%kind == 0) then
  select case (what)
  case (0); n = h%c%size_inbox()
  case (1); n = h%c%size_outbox()
  case (2); n = h%c%size_workspace()
  case (3); n = h%c%size_comm_buffers()
  end select
 else
  select case (what)
  case (0); n = h%r%size_inbox()
  case (1); n = h%r%size_outbox()
  case (2); n = h%r%size_workspace()
  case (3); n = h%r%size_comm_buffers()
  end select
 end if
end function
function h_factor(p, s) bind(C, name="vf_@B@_factor") result(x)
 type(C_PTR), value :: p
 integer(C_INT), value :: s
 real(C_DOUBLE) :: x
 type(holder), pointer :: h
 call c_f_pointer(p, h)
 if (h%kind == 0) then
  x = h%c%get_scale_factor(pick(s))
 else
  x = h%r%get_scale_factor(pick(s))
 end if
end function
function pick(s) result(k)
 integer(C_INT), intent(in) :: s
 integer(C_INT) :: k
 k = scale_@B@_none
 if (s == 1) k = scale_@B@_full
 if (s == 2) k = scale_@B@_symmetric
end function""")
T = {"f": "real(C_FLOAT)", "d": "real(C_DOUBLE)", "c": "complex(C_FLOAT_COMPLEX)", "z": "complex(C_DOUBLE_COMPLEX)"}
def routine(kind, dir, a, b, tag):
    w = "c" if (a in "fc" and b in "fc") else "z"
    meth = "forward" if dir == 0 else "backward"
    name = "x_" + tag
    o.append("subroutine %s(h, form, s, batch, ni, no, nw, pin, pout, pws)\n type(holder), intent(in) :: h\n integer(C_INT), intent(in) :: form, s, batch\n integer(C_SIZE_T), intent(in) :: ni, no, nw\n type(C_PTR), intent(in) :: pin, pout, pws" % name)
    o.append(" %s, pointer, contiguous :: x(:)\n %s, pointer, contiguous :: y(:)\n %s, pointer, contiguous :: w(:)" % (T[a], T[b], T[w]))
    o.append(" call c_f_pointer(pin, x, [ni])\n call c_f_pointer(pout, y, [no])\n if (form == 1 .or. form == 2) call c_f_pointer(pws, w, [nw])")
    v = "c" if kind == 0 else "r"
    o.append(" select case (form)")
    for form in range(4):
        args = ["x, y", "x, y, w", "batch, x, y, w", "batch, x, y"][form]
        o.append(" case (%d)" % form)
        o.append("  if (h%%alias) then\n   if (s < 0) then\n    call h%%%salias%%%s(%s)\n   else\n    call h%%%salias%%%s(%s, pick(s))\n   end if" % (v, meth, args, v, meth, args))
        o.append("  else\n   if (s < 0) then\n    call h%%%s%%%s(%s)\n   else\n    call h%%%s%%%s(%s, pick(s))\n   end if\n  end if" % (v, meth, args, v, meth, args))
    o.append(" end select\nend subroutine")
R = [(0, 0, "f", "c", "c_fwd_fc"), (0, 0, "c", "c", "c_fwd_cc"), (0, 0, "d", "z", "c_fwd_dz"), (0, 0, "z", "z", "c_fwd_zz"),
     (0, 1, "c", "f", "c_bwd_cf"), (0, 1, "c", "c", "c_bwd_cc"), (0, 1, "z", "d", "c_bwd_zd"), (0, 1, "z", "z", "c_bwd_zz"),
     (1, 0, "f", "c", "r_fwd_fc"), (1, 0, "d", "z", "r_fwd_dz"), (1, 1, "c", "f", "r_bwd_cf"), (1, 1, "z", "d", "r_bwd_zd")]
for r in R: routine(*r)
o.append("""subroutine h_exec(p, dir, prec, rl, form, s, batch, ni, no, nw, pin, pout, pws) bind(C, name="vf_@B@_exec")
 type(C_PTR), value :: p, pin, pout, pws
 integer(C_INT), value :: dir, prec, rl, form, s, batch
 integer(C_SIZE_T), value :: ni, no, nw
 type(holder), pointer :: h
 integer :: k
 call c_f_pointer(p, h)
 k = h%kind * 8 + dir * 4 + prec * 2 + rl
 select case (k)""")
for kind, dir, a, b, tag in R:
    rl = 1 if (a in "fd" or b in "fd") else 0
    prec = 1 if (a in "dz") else 0
    o.append(" case (%d)\n  call x_%s(h, form, s, batch, ni, no, nw, pin, pout, pws)" % (kind * 8 + dir * 4 + prec * 2 + rl, tag))
o.append(" end select\nend subroutine\nend module")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(here + "/app/fortran.f90.in", "w").write("\n".join(o) + "\n")
