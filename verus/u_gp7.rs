//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@include trans.inc
//@import eq_fns.inc
//@import vp_fns.inc
//@import pad_fns.inc
//@import pt_fns.inc
//@import pw.inc
//@include iop.inc
//@import gp1.inc
//@import gp2.inc
//@include fmap.inc
//@include sort.inc
//@import mult.inc
//@import gp3.inc
//@import gp4.inc
//@import gp5.inc
//@import disj.inc
//@include gp7.inc
//@include end.inc
