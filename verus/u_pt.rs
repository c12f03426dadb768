//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@include trans.inc
//@include eq_fns.inc
//@include vp_fns.inc
//@include pad_fns.inc
//@include pt_fns.inc
//@include end.inc
