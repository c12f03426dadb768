//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@include trans.inc
//@import eq_fns.inc
//@import vp_fns.inc
//@import pad_fns.inc
//@import pt_fns.inc
//@import pw.inc
//@include iop.inc
//@include gp1.inc
//@include end.inc
