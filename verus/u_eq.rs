//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@include eq_fns.inc
//@include kzg_eqext.inc
//@include end.inc
