//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@import eq_fns.inc
//@import mle_fns.inc
//@import kzg_eqext.inc
//@include grp.inc
//@import kzg.inc
//@include srs.inc
//@include end.inc
