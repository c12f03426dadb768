//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@include trans.inc
//@import eq_fns.inc
//@import vp_fns.inc
//@import pad_fns.inc
//@import pt_fns.inc
//@import pw.inc
//@include iop.inc
//@import gp1.inc
//@import gp2.inc
//@include fmap.inc
//@import mult.inc
//@import gp3.inc
//@import gp4.inc
//@include fj.inc
//@include end.inc
