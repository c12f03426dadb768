//@include prelude.inc
//@include trans.inc
//@include end.inc
