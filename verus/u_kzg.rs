//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@import mle_fns.inc
//@include grp.inc
//@include kzg.inc
//@include kzg_l.inc
//@include end.inc
